// @sources lib/binarizer-directional.cc lib/binarizer-cky.cc lib/binarizer.cc lib/hyper-graph.cc lib/dict.cc lib/util.cc lib/cfg-data.cc lib/sparse-map.cc
// @bounds forest: every forest of 5 (thorough 6) nodes with two edges on the root and one (thorough 0..2) on node 1, each over any increasing list of later nodes, equal or different labels of the two, every leaf punctuation or not, all five binarisers, symbolic edge scores, edges listed parents or children first
// @bounds wide: one edge with 1..10 tails, all five binarisers
// @harness forest quick=40 thorough=400
// @bounds ckyroot: one edge with 1..4 tails, the exhaustive binariser
// @harness wide quick=10 thorough=30
// @harness ckyroot quick=5 thorough=5
#include "hg.h"
#include <travatar/binarizer.h>
#include <travatar/binarizer-cky.h>
#include <travatar/binarizer-directional.h>
static const char *kinds[] = {"left", "right", "cky", "leftrp", "rightrp"};
typedef std::set<std::vector<int> > Seqs;
static int orig(const HyperNode *n) { return n->GetSpan().second == n->GetSpan().first + 1 ? n->GetSpan().first : -1; }
static bool introduced(const HyperNode *n) { const std::string &s = Dict::WSym(n->GetSym()); return s[s.size() - 1] == '\''; }
static Seqs expand(const HyperNode *n, int depth, int cap);
static Seqs expandTails(const HyperEdge *e, int depth, int cap) {
  Seqs r; r.insert(std::vector<int>());
  sx::Assert(depth < 12, "introduced nodes are not recursive");
  BOOST_FOREACH(const HyperNode *t, e->GetTails()) {
    Seqs c = expand(t, depth + 1, cap), n;
    BOOST_FOREACH(const std::vector<int> &a, r) BOOST_FOREACH(const std::vector<int> &b, c) { std::vector<int> x = a; x.insert(x.end(), b.begin(), b.end()); n.insert(x); }
    r.swap(n);
  }
  return r;
}
static int dirKind; static std::vector<bool> isPunct;
// the directional binarisers split off one child at every step: the first (right) or the last (left), or punctuation at the other end when it is raised
static void splits(const HyperEdge *e, const std::vector<int> &seq) {
  if (dirKind == 2 || seq.size() < 3) return;
  bool right = dirKind == 1 || dirKind == 4; if (dirKind >= 3 && isPunct[right ? seq.back() : seq.front()]) right = !right;
  sx::Assert(!introduced(e->GetTail(right ? 0 : 1)) && introduced(e->GetTail(right ? 1 : 0)), "the child to split off is the one the direction asks for");
  std::string l = Dict::WSym(e->GetHead()->GetSym()); if (!introduced(e->GetHead())) l += "'";
  sx::Assert(Dict::WSym(e->GetTail(right ? 1 : 0)->GetSym()) == l, "introduced nodes are labelled after the head of the edge");
}
// the sequences of original nodes a node of the result stands for
static Seqs expand(const HyperNode *n, int depth, int cap) {
  Seqs r;
  if (!introduced(n)) { int o = orig(n); sx::Assert(o >= 0, "a node with an original label has the span of an original node"); r.insert(std::vector<int>(1, o)); return r; }
  sx::Assert(n->NumEdges() > 0, "introduced nodes are never dead ends");
  BOOST_FOREACH(const HyperEdge *e, n->GetEdges()) {
    sx::Assert(e->GetScore() == 0 && e->GetFeatures() == SparseVector(), "introduced edges carry no score and no features");
    sx::Assert(e->NumTails() == 2, "introduced edges have two tails");
    Seqs c = expandTails(e, depth, cap); splits(e, *c.begin()); r.insert(c.begin(), c.end());
  }
  BOOST_FOREACH(const std::vector<int> &s, r) sx::Assert(n->GetSpan().first == s.front() && n->GetSpan().second == s.back() + 1, "introduced nodes span what they stand for");
  return r;
}
// the exhaustive binariser splits off the first or the last child, each once, for every node it introduces and every edge it splits
static void both(const std::vector<HyperEdge *> &es, int len) {
  if (len < 2) return; std::set<std::pair<int, int> > have;
  BOOST_FOREACH(const HyperEdge *e, es) { if (e->NumTails() != 2) continue; std::pair<int, int> l(e->GetTail(0)->GetId(), e->GetTail(1)->GetId()); sx::Assert(have.insert(l).second, "no split is listed twice"); sx::Assert(!introduced(e->GetTail(0)) || !introduced(e->GetTail(1)), "the exhaustive binariser splits off one child"); }
  sx::Assert((int)have.size() == (len == 2 ? 1 : 2), "the exhaustive binariser splits off the first and the last child");
}
static void run(HyperGraph &g, int kind) {
  int N = g.NumNodes(); dirKind = kind; isPunct.assign(N, false); for (int i = 0; i < N; i++) { std::string l = Dict::WSym(g.GetNode(i)->GetSym()); isPunct[i] = l == "." || l == ","; }
  boost::shared_ptr<Binarizer> b(Binarizer::CreateBinarizerFromString(kinds[kind]));
  boost::shared_ptr<HyperGraph> out(b->TransformGraph(g));
  sx::Assert(out->GetWords() == g.GetWords(), "the words are kept");
  std::vector<int> inUse(N, 0); for (int i = 0; i < N; i++) { if (g.GetNode(i)->NumEdges()) inUse[i] = 1; BOOST_FOREACH(const HyperEdge *e, g.GetNode(i)->GetEdges()) BOOST_FOREACH(const HyperNode *t, e->GetTails()) inUse[t->GetId()] = 1; }
  std::vector<int> count(N, 0), edgeCount(g.NumEdges(), 0);
  if (kind != 2) sx::Assert(out->NumNodes() > 0 && orig(out->GetNode(0)) == 0 && !introduced(out->GetNode(0)), "the root stays the root");
  int total = 0;
  for (int i = 0; i < out->NumNodes(); i++) {
    const HyperNode *n = out->GetNode(i); sx::Assert(n->GetId() == i, "node numbers are positions");
    total += n->NumEdges();
    BOOST_FOREACH(const HyperEdge *e, n->GetEdges()) {
      sx::Assert(e->GetHead() == n && out->GetEdge(e->GetId()) == e, "every edge is listed once under its head");
      BOOST_FOREACH(const HyperNode *t, e->GetTails()) sx::Assert(out->GetNode(t->GetId()) == t, "tails are nodes of the result");
    }
    if (introduced(n)) { std::set<std::vector<const HyperNode *> > ls; BOOST_FOREACH(const HyperEdge *e, n->GetEdges()) sx::Assert(ls.insert(std::vector<const HyperNode *>(e->GetTails().begin(), e->GetTails().end())).second, "no split is listed twice"); if (kind == 2) { Seqs q = expand(n, 0, 0); both(n->GetEdges(), q.begin()->size()); } continue; }
    int o = orig(n); sx::Assert(o >= 0, "a node with an original label has the span of an original node"); count[o]++;
    sx::Assert(n->GetSym() == g.GetNode(o)->GetSym(), "original labels are kept");
    BOOST_FOREACH(const HyperEdge *e, n->GetEdges()) {
      int id = -1; for (int k = 0; k < g.NumEdges(); k++) if (e->GetFeatures() == g.GetEdge(k)->GetFeatures()) id = k;
      sx::Assert(id >= 0 && g.GetEdge(id)->GetHead()->GetId() == o, "edges of an original node carry the features of one of its edges"); edgeCount[id]++;
      sx::Assert(e->GetScore() == g.GetEdge(id)->GetScore(), "edges of an original node carry its score");
      int nt = g.GetEdge(id)->NumTails();
      sx::Assert(e->NumTails() == (nt > 2 && !(kind == 2 && nt > 7) ? 2 : nt), "no edge has more than two tails, except those beyond the cap of the exhaustive binariser");
      std::vector<int> want; BOOST_FOREACH(const HyperNode *t, g.GetEdge(id)->GetTails()) want.push_back(t->GetId());
      Seqs s = expandTails(e, 0, 0); sx::Assert(s.size() == 1 && *s.begin() == want, "contracting the introduced nodes gives the original edge"); splits(e, want);
    }
  }
  if (kind == 2) for (int k = 0; k < g.NumEdges(); k++) { int nt = g.GetEdge(k)->NumTails(); if (nt < 3 || nt > 7) continue; std::vector<HyperEdge *> es; for (int i = 0; i < out->NumEdges(); i++) if (out->GetEdge(i)->GetFeatures() == g.GetEdge(k)->GetFeatures()) es.push_back(out->GetEdge(i)); both(es, nt); }
  sx::Assert(total == out->NumEdges(), "every edge is listed under one node");
  for (int i = 0; i < N; i++) sx::Assert(count[i] == inUse[i], "every original node appears once");
  for (int i = 0; i < g.NumEdges(); i++) sx::Assert(kind == 2 ? edgeCount[i] >= 1 : edgeCount[i] == 1, "every original edge is represented");
}
static HyperEdge *edge(HyperGraph &g, std::vector<HyperNode *> &ns, int i, int mask, double score) {
  std::vector<HyperNode *> t; for (size_t k = i + 1; k < ns.size(); k++) if (mask >> (k - i - 1) & 1) t.push_back(ns[k]);
  HyperEdge *e = new HyperEdge(ns[i]); e->SetTails(t); e->SetScore(score); ns[i]->AddEdge(e); return e;
}
SX_HARNESS(forest) {
  int N = sx::Q(5, 6), kind = sx::Pick("binariser", 0, 4); HyperGraph g; std::vector<HyperNode *> ns;
  bool same = sx::Pick("same label", 0, 1);
  for (int i = 0; i < N; i++) {
    ns.push_back(new HyperNode); ns[i]->SetSpan(std::make_pair(i, i + 1)); g.AddNode(ns[i]);
    bool punct = i >= 2 && kind >= 3 && (sx::Tier() || i != 3) && sx::Pick(nm("punctuation", i), 0, 1);
    ns[i]->SetSym(Dict::WID(i == 0 ? "A" : i == 1 ? (same ? "A" : "B") : punct ? (i % 2 ? "," : ".") : "C"));
  }
  Sentence w; w.push_back(Dict::WID("x")); g.SetWords(w);
  std::vector<HyperEdge *> es; int first = 0;
  for (int e = 0; e < 2; e++) { first = sx::Pick(nm("tails0", e), std::max(1, first), (1 << (N - 1)) - 1); es.push_back(edge(g, ns, 0, first, sx::Fix(nm("score0", e), -64, 64, 2))); }
  int n1 = sx::Tier() ? sx::Pick("edges1", 0, 2) : 1;
  for (int e = 0; e < n1; e++) es.push_back(edge(g, ns, 1, sx::Pick(nm("tails1", e), 1, (1 << (N - 2)) - 1), sx::Fix(nm("score1", e), -64, 64, 2)));
  if (sx::Pick("children first", 0, 1)) std::reverse(es.begin(), es.end());
  for (size_t i = 0; i < es.size(); i++) { es[i]->GetFeatures().Add(Dict::WID(std::string("f") + char('0' + i)), 1); g.AddEdge(es[i]); }
  run(g, kind); sx::Reach("end");
}
SX_HARNESS(wide) {
  int n = sx::Pick("tails", 1, 10); HyperGraph g; std::vector<HyperNode *> ns;
  for (int i = 0; i <= n; i++) { ns.push_back(new HyperNode); ns[i]->SetSpan(std::make_pair(i, i + 1)); ns[i]->SetSym(Dict::WID(i % 3 == 1 ? "," : "C")); g.AddNode(ns[i]); }
  HyperEdge *e = edge(g, ns, 0, (1 << n) - 1, sx::Fix("score", -64, 64, 2)); e->GetFeatures().Add(Dict::WID("f0"), 1); g.AddEdge(e);
  run(g, sx::Pick("binariser", 0, 4)); sx::Reach("end");
}
// The result of the exhaustive binariser does not start with the root (recorded finding: an existing test fixes its node order).
SX_HARNESS(ckyroot) {
  int n = sx::Pick("tails", 1, 4); HyperGraph g; std::vector<HyperNode *> ns;
  for (int i = 0; i <= n; i++) { ns.push_back(new HyperNode); ns[i]->SetSpan(std::make_pair(i, i + 1)); ns[i]->SetSym(Dict::WID("C")); g.AddNode(ns[i]); }
  g.AddEdge(edge(g, ns, 0, (1 << n) - 1, 0)); sx::Reach("end");
  boost::shared_ptr<HyperGraph> out(BinarizerCKY().TransformGraph(g));
  sx::Assert(n <= 2 || (out->NumNodes() > 0 && orig(out->GetNode(0)) == 0 && !introduced(out->GetNode(0))), "the root is the first node after exhaustive binarisation");
}
