// @sources lib/hyper-graph.cc lib/dict.cc lib/util.cc lib/cfg-data.cc lib/sparse-map.cc
// @bounds copy, append: every pair of graphs of 1..3 (thorough 1..4) nodes with 1 edge on the root of the first and 0..1 (append: 0..2 on the first graph; thorough: 0..2) on the others, every tail list of length <= 2 over later nodes, scores -1 or 0, hyper-edge or rule-edge graphs; edges listed parents or children first
// @bounds add: nodes added with every mix of automatic and given numbers 0..3
// @bounds labels: 3 nodes with every span over positions 0..2, labelled spans
// @harness copy quick=20 thorough=100
// @harness append quick=15 thorough=300
// @harness add quick=5 thorough=10
// @harness labels quick=5 thorough=10
#include "hg.h"
struct Shape { std::vector<std::vector<std::vector<int> > > tails; std::vector<int> order; std::vector<double> scores; };
// builds a graph; names are distinct per graph
static void build(HyperGraph &g, const char *pre, int minN, int maxN, bool rule, int maxE) {
  std::string p(pre); int N = sx::Pick((p + "nodes").c_str(), minN, maxN); std::vector<HyperNode *> ns; std::vector<HyperEdge *> es;
  for (int i = 0; i < N; i++) { HyperNode *n = new HyperNode(Dict::WID(p + char('0' + i)), Dict::WID(p + "t" + char('0' + i)), std::make_pair(i, i + 2)); std::set<int> ts; ts.insert(i); n->SetTrgSpan(ts); n->SetFrontier(HyperNode::IS_FRONTIER); n->SetViterbiScore(-i); ns.push_back(n); g.AddNode(n); }
  int c = 0;
  for (int i = 0; i < N; i++) {
    std::vector<std::vector<int> > ch = tailChoices(i, N); int ne = sx::Pick(nm((p + "edges").c_str(), i), i ? 0 : 1, i == 0 ? 1 : maxE);
    for (int e = 0; e < ne; e++) {
      int k = sx::Pick(nm((p + "tails").c_str(), i, e), 0, (int)ch.size() - 1);
      HyperEdge *ed = rule ? new RuleEdge(ns[i]) : new HyperEdge(ns[i]); for (size_t x = 0; x < ch[k].size(); x++) ed->AddTail(ns[ch[k][x]]);
      ed->SetScore(sx::Fix(nm((p + "score").c_str(), i, e), -1, 0, 0)); ed->GetFeatures().Add(Dict::WID(p + "f" + char('0' + c)), 1); ed->AddTrgWord(Dict::WID(p + "w" + char('0' + c))); ed->SetSrcStr(p + "s" + char('0' + c)); c++;
      ns[i]->AddEdge(ed); es.push_back(ed);
    }
  }
  if (es.size() > 1 && sx::Pick((p + "children first").c_str(), 0, 1)) std::reverse(es.begin(), es.end());
  for (size_t i = 0; i < es.size(); i++) g.AddEdge(es[i]);
  g.SetEdgeType(rule ? HyperGraph::RULE_EDGE : HyperGraph::HYPER_EDGE);
  g.AddWord(Dict::WID(p + "x")); g.AddWord(Dict::WID(p + "y"));
}
struct NodeRec { int sym, trg; SpanId span; std::set<int> ts; std::vector<int> edges; };
struct EdgeRec { int head; std::vector<int> tails; double score; SparseVector f; CfgDataVector t; std::string s; };
struct Rec { std::vector<NodeRec> n; std::vector<EdgeRec> e; Sentence w; };
static Rec record(const HyperGraph &g) {
  Rec r; r.w = g.GetWords();
  for (int i = 0; i < g.NumNodes(); i++) { const HyperNode *n = g.GetNode(i); sx::Assert(n->GetId() == i, "node numbers are positions"); NodeRec x; x.sym = n->GetSym(); x.trg = n->GetTrgSym(); x.span = n->GetSpan(); x.ts = n->GetTrgSpan(); BOOST_FOREACH(const HyperEdge *e, n->GetEdges()) { sx::Assert(e->GetId() >= 0 && e->GetId() < g.NumEdges() && g.GetEdge(e->GetId()) == e && e->GetHead() == n, "every edge of a node belongs to this graph and has it as its head"); x.edges.push_back(e->GetId()); } r.n.push_back(x); }
  for (int i = 0; i < g.NumEdges(); i++) { const HyperEdge *e = g.GetEdge(i); sx::Assert(e->GetId() == i, "edge numbers are positions"); EdgeRec x; x.head = e->GetHead()->GetId(); sx::Assert(g.GetNode(x.head) == e->GetHead(), "heads are nodes of this graph"); BOOST_FOREACH(const HyperNode *t, e->GetTails()) { sx::Assert(t->GetId() >= 0 && t->GetId() < g.NumNodes() && g.GetNode(t->GetId()) == t, "tails are nodes of this graph"); x.tails.push_back(t->GetId()); } x.score = e->GetScore(); x.f = e->GetFeatures(); x.t = e->GetTrgData(); x.s = e->GetSrcStr(); r.e.push_back(x); }
  return r;
}
// part of a equals b, with numbers of b shifted
static void sameRec(const Rec &a, size_t n0, size_t e0, const Rec &b, const char *what) {
  bool ok = a.n.size() >= n0 + b.n.size() && a.e.size() >= e0 + b.e.size(), sc = true; sx::Assert(ok, what);
  for (size_t i = 0; i < b.n.size(); i++) { const NodeRec &x = a.n[n0 + i], &y = b.n[i]; std::vector<int> es; for (size_t k = 0; k < y.edges.size(); k++) es.push_back(y.edges[k] + e0); ok &= x.sym == y.sym && x.trg == y.trg && x.span == y.span && x.ts == y.ts && x.edges == es; }
  for (size_t i = 0; i < b.e.size(); i++) { const EdgeRec &x = a.e[e0 + i], &y = b.e[i]; std::vector<int> ts; for (size_t k = 0; k < y.tails.size(); k++) ts.push_back(y.tails[k] + n0); ok &= x.head == y.head + (int)n0 && x.tails == ts && x.f == y.f && x.t == y.t && x.s == y.s; sc &= x.score == y.score; }
  sx::Assert(ok, what); sx::Assert(sc, what);
}
SX_HARNESS(copy) {
  bool rule = sx::Pick("rule", 0, 1); HyperGraph other; HyperEdge *frag = new HyperEdge; other.AddEdge(frag);
  boost::shared_ptr<HyperGraph> g(new HyperGraph); build(*g, "A", 1, sx::Q(3, 4), rule, sx::Q(1, 2));
  if (rule) BOOST_FOREACH(HyperEdge *e, g->GetEdges()) static_cast<RuleEdge *>(e)->AddFragmentEdge(frag);
  Rec before = record(*g); HyperGraph c(*g); Rec copy = record(c);
  sx::Assert(copy.n.size() == before.n.size() && copy.e.size() == before.e.size() && copy.w == before.w && c.GetEdgeType() == g->GetEdgeType(), "the copy has the same size, words and kind");
  sameRec(copy, 0, 0, before, "the copy is equal"); sameRec(record(*g), 0, 0, before, "copying leaves the original alone");
  sx::Assert(g->CheckEqual(c), "the copy compares equal");
  for (int i = 0; i < c.NumNodes(); i++) sx::Assert(c.GetNode(i) != g->GetNode(i) && c.GetNode(i)->GetViterbiScore() == g->GetNode(i)->GetViterbiScore() && c.GetNode(i)->GetFrontier() == g->GetNode(i)->GetFrontier(), "nodes are copied, not shared");
  for (int i = 0; i < c.NumEdges(); i++) {
    sx::Assert(c.GetEdge(i) != g->GetEdge(i), "edges are copied, not shared");
    if (rule) sx::Assert(static_cast<RuleEdge *>(c.GetEdge(i))->GetFragmentEdges() == std::vector<HyperEdge *>(1, frag), "rule edges keep their fragments");
  }
  int what = sx::Pick("change", 0, 2);
  if (what == 0) g.reset();
  else if (what == 1) { BOOST_FOREACH(HyperEdge *e, g->GetEdges()) { e->SetScore(100); e->GetTails().clear(); e->GetFeatures() = SparseVector(); } BOOST_FOREACH(HyperNode *n, g->GetNodes()) { n->GetEdges().clear(); n->SetSym(-1); n->SetSpan(std::make_pair(7, 8)); } g->GetWords().clear(); }
  else { HyperGraph d(c); BOOST_FOREACH(HyperNode *n, d.GetNodes()) n->SetEdges(std::vector<HyperEdge *>()); d.DeleteEdges(); d.DeleteNodes(); sx::Assert(d.NumEdges() == 0 && d.NumNodes() == 0, "deleting empties the graph"); }
  sameRec(record(c), 0, 0, copy, "later changes to the original do not reach the copy");
  sx::Reach("end");
}
SX_HARNESS(append) {
  HyperGraph a, b; build(a, "A", 1, sx::Q(2, 3), false, 2); build(b, "B", 1, 3, false, 1);
  Rec ra = record(a), rb = record(b);
  int root = a.Append(b); Rec r = record(a);
  sx::Assert(root == (int)ra.n.size(), "Append returns the number of the appended root");
  sx::Assert(r.n.size() == ra.n.size() + rb.n.size() && r.e.size() == ra.e.size() + rb.e.size() && r.w == ra.w, "the sizes add up");
  sameRec(r, 0, 0, ra, "the first part is unchanged"); sameRec(r, ra.n.size(), ra.e.size(), rb, "the appended part is a shifted copy"); sameRec(record(b), 0, 0, rb, "the appended graph is left alone");
  for (int i = 0; i < b.NumEdges(); i++) sx::Assert(a.GetEdge(ra.e.size() + i) != b.GetEdge(i), "edges are copied");
  HyperGraph c; if (sx::Pick("to an empty graph", 0, 1)) { sx::Assert(c.Append(b) == 0, "appending to an empty graph"); sameRec(record(c), 0, 0, rb, "appending to an empty graph"); }
  sx::Reach("end");
}
SX_HARNESS(add) {
  HyperGraph g; std::vector<HyperNode *> at; int n = 3; 
  for (int i = 0; i < n; i++) {
    int id = sx::Pick(nm("id", i), -1, 3); HyperNode *x = new HyperNode(Dict::WID("X"), -1, std::make_pair(0, 1), id);
    int want = id < 0 ? (int)at.size() : id; bool dup = want < (int)at.size() && at[want], thrown = false;
    try { g.AddNode(x); } catch (std::exception &) { thrown = true; }
    sx::Assert(thrown == dup, "only an occupied number is rejected");
    if (dup) { delete x; continue; }
    if ((int)at.size() <= want) at.resize(want + 1, (HyperNode *)NULL); at[want] = x;
    sx::Assert(x->GetId() == want, "the node has its number"); sx::Assert(g.GetNodes() == at, "nodes are stored at their numbers");
  }
  for (int i = 0; i < 2; i++) { HyperEdge *e = new HyperEdge; g.AddEdge(e); sx::Assert(e->GetId() == i && g.GetEdge(i) == e && g.NumEdges() == i + 1, "edges are numbered in order"); }
  sx::Reach("end");
}
SX_HARNESS(labels) {
  HyperGraph g; LabeledSpans want;
  for (int i = 0; i < 3; i++) { int a = sx::Pick(nm("from", i), 0, 1), b = sx::Pick(nm("to", i), a + 1, 2); g.AddNode(new HyperNode(Dict::WID(std::string("L") + char('0' + i)), -1, std::make_pair(a, b))); want.insert(std::make_pair(std::make_pair(a, b), Dict::WID(std::string("L") + char('0' + i)))); }
  sx::Assert(g.GetLabeledSpans() == want, "each span has the label of the first node covering it"); sx::Reach("end");
}
