// @sources lib/rule-composer.cc lib/hyper-graph.cc lib/dict.cc lib/util.cc lib/cfg-data.cc lib/sparse-map.cc
// @bounds compose: derivation forests over a 3-word source with nodes for the spans 0-3, 0-2, 1-3, 0-1, 1-2, 2-3: 2 rules on the root (quick: the second is a leaf rule or covers all leaves), 1 on the others (thorough: 2 on the inner ones and the middle leaf), every ordered list of disjoint smaller nodes as tails, targets straight or reversed in the first of two factors, an extra source fragment on an uncovered position or not, scores distinct powers of two, order 1..4 (thorough 5), lexical span 0 or 2 (thorough 0..3)
// @harness compose quick=25 thorough=400
#include "hg.h"
#include <travatar/rule-composer.h>
static const int from[] = {0, 0, 1, 0, 1, 2}, to[] = {3, 2, 3, 1, 2, 3};
struct Rule { int node; std::vector<int> tails; bool rev; int extra; double score; HyperEdge *f1, *f2; RuleEdge *e; };
static std::vector<Rule> rules;
static std::vector<int> fw(const Rule &r, int factor) { // target side: own word, tails in the order of the factor, own second word
  int id = &r - &rules[0]; std::vector<int> w, t; w.push_back(100 + id + 50 * factor);
  for (size_t i = 0; i < r.tails.size(); i++) t.push_back(-1 - (int)i);
  if (factor == 0 && r.rev) std::reverse(t.begin(), t.end());
  w.insert(w.end(), t.begin(), t.end()); if (t.size() > 1) w.insert(w.begin() + 2, 200 + id); return w;
}
// a connected set of rules: the rule at its root and, per tail, a part below or NULL
struct Part { int rule; std::vector<Part> ch; bool open; };
static std::vector<Part> parts(int node) {
  std::vector<Part> r;
  for (size_t i = 0; i < rules.size(); i++) if (rules[i].node == node) {
    Part p; p.rule = i; p.open = false; std::vector<Part> cur(1, p);
    for (size_t t = 0; t < rules[i].tails.size(); t++) {
      std::vector<Part> below = parts(rules[i].tails[t]), n; Part o; o.rule = -1 - rules[i].tails[t]; o.open = true; below.push_back(o);
      for (size_t a = 0; a < cur.size(); a++) for (size_t b = 0; b < below.size(); b++) { n.push_back(cur[a]); n.back().ch.push_back(below[b]); }
      cur.swap(n);
    }
    r.insert(r.end(), cur.begin(), cur.end());
  }
  return r;
}
struct Want { int size; std::vector<int> tails; std::vector<int> words[2]; double score; std::vector<HyperEdge *> frags; std::vector<std::pair<int, HyperEdge *> > key; };
static void flat(const Part &p, Want &w, std::vector<int> *words) { // words: of this part, tails numbered globally
  if (p.open) { words[0].push_back(-1 - (int)w.tails.size()); words[1].push_back(-1 - (int)w.tails.size()); w.tails.push_back(-1 - p.rule); return; }
  const Rule &r = rules[p.rule]; w.size++; w.score += r.score;
  w.key.push_back(std::make_pair(from[r.node], r.f1)); if (r.f2) w.key.push_back(std::make_pair(r.extra, r.f2));
  std::vector<std::vector<int> > cw0, cw1;
  for (size_t i = 0; i < p.ch.size(); i++) { std::vector<int> c[2]; flat(p.ch[i], w, c); cw0.push_back(c[0]); cw1.push_back(c[1]); }
  for (int f = 0; f < 2; f++) { std::vector<int> t = fw(r, f); for (size_t k = 0; k < t.size(); k++) if (t[k] >= 0) words[f].push_back(t[k]); else { std::vector<int> &c = (f ? cw1 : cw0)[-1 - t[k]]; words[f].insert(words[f].end(), c.begin(), c.end()); } }
}
static int sizeOf(const Part &p) { if (p.open) return 0; int n = 1; for (size_t i = 0; i < p.ch.size(); i++) n += sizeOf(p.ch[i]); return n; }
static bool complete(const Part &p) { if (p.open) return false; for (size_t i = 0; i < p.ch.size(); i++) if (!complete(p.ch[i])) return false; return true; }
// within the size, or without tails, over at most lex words and of that size outside the last child
static bool composable(const Part &p, int order, int lex) {
  if (sizeOf(p) <= order) return true; int n = rules[p.rule].node; if (!complete(p) || to[n] - from[n] > lex) return false;
  const Part &c = p.ch.back(); return sizeOf(p) - sizeOf(c) <= order && composable(c, order, lex);
}
static bool byStart(const std::pair<int, HyperEdge *> &a, const std::pair<int, HyperEdge *> &b) { return a.first < b.first; }
SX_HARNESS(compose) {
  rules.clear(); HyperGraph src, g; g.SetEdgeType(HyperGraph::RULE_EDGE); std::vector<HyperNode *> ns; rules.reserve(20);
  for (int i = 0; i < 6; i++) { ns.push_back(new HyperNode(Dict::WID(std::string("N") + char('0' + i)), -1, std::make_pair(from[i], to[i]))); g.AddNode(ns[i]); }
  for (int p = 0; p < 3; p++) src.AddNode(new HyperNode(-1, -1, std::make_pair(p, p + 1)));
  for (int i = 0; i < 6; i++) src.AddNode(new HyperNode(-1, -1, std::make_pair(from[i], to[i])));
  int prev = 0;
  for (int i = 0; i < 6; i++) {
    std::vector<std::vector<int> > ch(1);
    for (size_t q = 0; q < ch.size(); q++) { std::vector<int> base = ch[q]; for (int k = i + 1; k < 6; k++) if (from[k] >= from[i] && to[k] <= to[i] && (base.empty() || from[k] >= to[base.back()])) { ch.push_back(base); ch.back().push_back(k); } }
    int n = i == 0 ? 2 : i <= 2 ? sx::Q(1, 2) : i == 4 ? sx::Q(1, 2) : 1; prev = 0;
    for (int e = 0; e < n; e++) {
      Rule r; r.node = i; int last = (int)ch.size() - 1; prev = i == 0 && e == 1 && !sx::Tier() ? (sx::Pick("second root", 0, 1) ? last : 0) : sx::Pick(nm("tails", i, e), i == 0 && e == 0 ? 1 : prev, last); r.tails = ch[prev];
      r.rev = r.tails.size() > 1 && sx::Pick(nm("reversed", i, e), 0, 1); r.score = 1 << rules.size(); r.extra = -1; r.f2 = NULL;
      for (int p = from[i]; p < to[i]; p++) { bool cov = false; for (size_t k = 0; k < r.tails.size(); k++) cov |= from[r.tails[k]] <= p && p < to[r.tails[k]]; if (!cov) r.extra = p; }
      if (r.extra >= 0 && (i >= 3 || !sx::Pick(nm("extra", i, e), 0, 1))) r.extra = -1;
      r.f1 = new HyperEdge(src.GetNode(3 + i)); src.AddEdge(r.f1); if (r.extra >= 0) { r.f2 = new HyperEdge(src.GetNode(r.extra)); src.AddEdge(r.f2); }
      rules.push_back(r); Rule &x = rules.back(); x.e = new RuleEdge(ns[i]); for (size_t k = 0; k < x.tails.size(); k++) x.e->AddTail(ns[x.tails[k]]);
      CfgDataVector t; t.push_back(CfgData(fw(x, 0))); t.push_back(CfgData(fw(x, 1))); x.e->SetTrgData(t); x.e->AddFragmentEdge(x.f1); if (x.f2) x.e->AddFragmentEdge(x.f2); x.e->SetScore(x.score);
      g.AddEdge(x.e); ns[i]->AddEdge(x.e);
    }
  }
  int order = sx::Pick("order", 1, sx::Q(4, 5)), lex = sx::Pick("lexical span", 0, sx::Q(1, 3)); if (!sx::Tier()) lex *= 2;
  int nEdges = g.NumEdges();
  boost::shared_ptr<HyperGraph> out(RuleComposer(order, lex).TransformGraph(g));
  sx::Assert(g.NumEdges() == nEdges && out->NumNodes() == 6 && out->GetEdgeType() == HyperGraph::RULE_EDGE, "nodes and the input are kept");
  std::vector<int> reach(6, 0); reach[0] = 1; for (int i = 0; i < 6; i++) if (reach[i]) for (size_t k = 0; k < rules.size(); k++) if (rules[k].node == i) for (size_t t = 0; t < rules[k].tails.size(); t++) reach[rules[k].tails[t]] = 1;
  int total = 0;
  for (int i = 0; i < 6; i++) {
    std::vector<Part> ps = parts(i); std::vector<Want> ws;
    for (size_t k = 0; k < ps.size(); k++) { Want w; w.size = 0; w.score = 0; flat(ps[k], w, w.words); std::stable_sort(w.key.begin(), w.key.end(), byStart); for (size_t f = 0; f < w.key.size(); f++) w.frags.push_back(w.key[f].second); ws.push_back(w); }
    std::vector<int> made; for (size_t k = 0; k < ps.size(); k++) made.push_back(composable(ps[k], order, lex));
    std::vector<int> seen(ws.size(), 0); const HyperNode *n = out->GetNode(i); total += n->NumEdges();
    for (int e = 0; e < n->NumEdges(); e++) {
      const RuleEdge *x = static_cast<const RuleEdge *>(n->GetEdge(e)); sx::Assert(x->GetHead() == n && out->GetEdge(x->GetId()) == x, "rules are listed under their head and number");
      int at = -1; for (size_t k = 0; k < ws.size(); k++) if (x->GetFragmentEdges() == ws[k].frags) at = k;
      sx::Assert(at >= 0, "the source fragments of a rule are those of a connected set of minimal rules in source order");
      sx::Assert(!seen[at], "no connected set is composed twice"); seen[at] = 1;
      std::vector<int> t; BOOST_FOREACH(const HyperNode *y, x->GetTails()) { sx::Assert(out->GetNode(y->GetId()) == y, "tails are nodes of the result"); t.push_back(y->GetId()); }
      sx::Assert(t == ws[at].tails, "the tails are the open children in source order");
      sx::Assert(x->GetTrgData().size() == 2 && x->GetTrgData()[0].words == ws[at].words[0] && x->GetTrgData()[1].words == ws[at].words[1], "the target sides are substituted into each other");
      sx::Assert(x->GetScore() == ws[at].score, "scores add up");
      if (ws[at].size > order) { sx::Reach("lexical"); sx::Assert(made[at], "larger rules are complete, within the lexical span, and not larger outside their last child"); }
      if (ws[at].size > 1) sx::Reach("composed");
    }
    for (size_t k = 0; k < ws.size(); k++) sx::Assert(seen[k] || !made[k] || (!reach[i] && ws[k].size > 1), "every connected set within the size limit or the lexical span is composed");
  }
  sx::Assert(total == out->NumEdges(), "every rule is listed under one node");
  sx::Reach("end");
}
// @reach compose composed
// @reach compose lexical
