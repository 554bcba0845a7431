// @sources lib/tree-io.cc lib/io-util.cc lib/hyper-graph.cc lib/dict.cc lib/util.cc lib/cfg-data.cc lib/sparse-map.cc
// @bounds shape: JSON of every forest of a root and 2 (thorough 3) further nodes in which each node has up to 2 edges (the last up to one) with up to two tails
// @bounds attrs: JSON of a three node forest with every combination of awkward labels, words, target sides of up to 2 words and variables in up to 2 factors, features, scores, target spans and frontier marks (one node or edge at a time)
// @bounds prefix: every proper prefix of the JSON text of 4 forests
// @bounds bad: JSON in which one field of a node or edge is missing or one number is out of range
// @bounds egret: every sentence of 2..3 (thorough 4) words from 2, a root over 1..2 ways of splitting it, preterminals with one or two labels; edge scores from 4 values, normalised or not; two forests in one stream
// @bounds egretbad: Egret lines of up to 5 tokens from {node, terminal, =>, |||, number}
// @bounds many: JSON of a forest of 12 (thorough 120) nodes in one chain and one further edge between any node and one or two of those below it
// @bounds egretname: a root over one preterminal over one word, or two preterminals with the same label at different places, for awkward labels and words and positions of up to 4 digits
// @assume nodes have labels; labels and words are valid UTF-8 without blanks or control characters; target words are not negative integers; Egret terminals are not of the form x[1,2] and preterminals cover one word
// @harness shape quick=10 thorough=200
// @harness attrs quick=10 thorough=60
// @harness prefix quick=5 thorough=20
// @harness bad quick=5 thorough=20
// @harness egret quick=15 thorough=200
// @harness many quick=5 thorough=10
// @harness egretname quick=10 thorough=20
// @harness egretbad quick=10 thorough=60
#include "hg.h"
#include <travatar/tree-io.h>
#include <memory>
#include <cmath>
static void jsonTrip(const HyperGraph &g) {
  JSONTreeIO io; std::ostringstream o; io.WriteTree(g, o); std::istringstream in(o.str() + "\n" + o.str() + "\nrest"); bool ok; std::unique_ptr<HyperGraph> h, h2; SX_NOTHROW(h.reset(io.ReadTree(in)); h2.reset(io.ReadTree(in)), ok); sx::Assert(ok, "written forests are accepted"); if (!ok) return;
  std::string rest; in >> rest; sx::Assert(rest == "rest", "one line is read per forest");
  sx::Assert(h->GetWords() == g.GetWords(), "words"); sx::Assert(h->NumNodes() == g.NumNodes() && h->NumEdges() == g.NumEdges(), "number of nodes and edges");
  for (int i = 0; i < g.NumNodes(); i++) { const HyperNode *a = g.GetNode(i), *b = h->GetNode(i); sx::Assert(b->GetId() == i && a->GetSym() == b->GetSym(), "node labels"); sx::Assert(a->GetSpan() == b->GetSpan() && a->GetTrgSpan() == b->GetTrgSpan() && a->GetFrontier() == b->GetFrontier(), "node spans and marks"); sx::Assert(a->NumEdges() == b->NumEdges(), "edges of a node"); for (int e = 0; e < a->NumEdges(); e++) sx::Assert(a->GetEdge(e)->GetId() == b->GetEdge(e)->GetId(), "order of the edges of a node"); }
  for (int i = 0; i < g.NumEdges(); i++) { const HyperEdge *a = g.GetEdge(i), *b = h->GetEdge(i); sx::Assert(b->GetId() == i && a->GetHead()->GetId() == b->GetHead()->GetId() && b->GetHead() == h->GetNode(b->GetHead()->GetId()), "heads"); bool t = a->NumTails() == b->NumTails(); for (int k = 0; t && k < a->NumTails(); k++) t = b->GetTail(k) == h->GetNode(a->GetTail(k)->GetId()); sx::Assert(t, "tails"); sx::Assert(a->GetFeatures() == b->GetFeatures(), "features"); sx::Assert(a->GetScore() == b->GetScore(), "scores"); bool w = a->GetTrgData().size() == b->GetTrgData().size(); for (size_t k = 0; w && k < a->GetTrgData().size(); k++) w = a->GetTrgData()[k].words == b->GetTrgData()[k].words; sx::Assert(w, "target words and variables"); }
  std::ostringstream o2; io.WriteTree(*h2, o2); sx::Assert(o2.str() == o.str(), "writing again gives the same text"); sx::Reach("end");
}
SX_HARNESS(shape) {
  int n = sx::Q(3, 4); HyperGraph g; for (int i = 0; i < n; i++) { HyperNode *x = new HyperNode(Dict::WID(i ? "A" : "S"), -1, std::make_pair(i, n)); g.AddNode(x); g.AddWord(Dict::WID("w")); }
  for (int i = 0; i < n; i++) { std::vector<std::vector<int> > tc = tailChoices(i, n); int m = sx::Pick(nm("edges", i), 0, i == n - 1 ? 1 : 2); for (int e = 0; e < m; e++) { const std::vector<int> &t = tc[sx::Pick(nm("tails", i, e), 0, tc.size() - 1)]; std::vector<HyperNode *> k; for (size_t j = 0; j < t.size(); j++) k.push_back(g.GetNode(t[j])); mkEdge(g, g.GetNode(i), k, -i - 0.5 * e); } }
  jsonTrip(g);
}
static const char *ws[] = {"w", "\"", "\\", "5", "\xc3\xa9", "a.b", "", "/", "{x}", "null"};
static HyperGraph *three() { HyperGraph *g = new HyperGraph; g->AddNode(new HyperNode(Dict::WID("S"), -1, std::make_pair(0, 1))); g->AddNode(new HyperNode(Dict::WID("A"), -1, std::make_pair(0, 1))); g->AddNode(new HyperNode(Dict::WID("a"), -1, std::make_pair(0, 1))); g->AddWord(Dict::WID("a")); mkEdge(*g, g->GetNode(0), std::vector<HyperNode *>(1, g->GetNode(1)), 0); mkEdge(*g, g->GetNode(1), std::vector<HyperNode *>(1, g->GetNode(2)), 0); return g; }
SX_HARNESS(attrs) {
  std::unique_ptr<HyperGraph> g(three()); int what = sx::Pick("what", 0, 5);
  if (what == 0) { g->GetNode(sx::Pick("node", 0, 2))->SetSym(Dict::WID(ws[sx::Pick("label", 0, 9)])); Sentence w; int n = sx::Pick("words", 0, 2); for (int i = 0; i < n; i++) w.push_back(Dict::WID(ws[sx::Pick(nm("word", i), 0, 9)])); g->SetWords(w); }
  if (what == 1) { int f = sx::Pick("factors", 1, 2); HyperEdge *e = g->GetEdge(0); for (int k = 0; k < f; k++) { CfgData d; int n = sx::Pick(nm("target", k), 0, 2); for (int i = 0; i < n; i++) { int c = sx::Pick(nm("target word", k, i), -3, k ? 3 : 9); d.words.push_back(c < 0 ? (c == -3 ? -11 : c) : Dict::WID(ws[c])); } e->GetTrgData().push_back(d); } }
  if (what == 2) { HyperEdge *e = g->GetEdge(1); int n = sx::Pick("features", 0, 2); for (int i = 0; i < n; i++) { static const double v[] = {1, -0.5, 0.25, 1e6, 3e-5, 123456}; int c = sx::Pick(nm("feature", i), i ? 5 : 0, i ? 9 : 4); e->GetFeatures().Add(Dict::WID(ws[c]), v[sx::Pick(nm("value", i), 0, 5)]); } }
  if (what == 3) { static const double v[] = {0, -0.5, 1e-7, -123456, 2.5e10}; g->GetEdge(0)->SetScore(v[sx::Pick("score", 0, 4)]); g->GetEdge(1)->SetScore(v[sx::Pick("score 2", 0, 4)]); }
  if (what == 4) { std::set<int> s; for (int i = 0; i < 3; i++) { static const int at[] = {0, 1, 9, 10, 63, 64, 127, 1000}; int c = sx::Pick(nm("position", i), -1, 7); if (c >= 0) s.insert(at[c]); } g->GetNode(1)->SetTrgSpan(s); static const HyperNode::FrontierType f[] = {HyperNode::UNSET_FRONTIER, HyperNode::IS_FRONTIER, HyperNode::NOT_FRONTIER}; g->GetNode(1)->SetFrontier(f[sx::Pick("frontier", 0, 2)]); }
  if (what == 5) { static const int at[] = {-1, 0, 1, 9, 10, 99, 128, 1000, 70000}; g->GetNode(0)->SetSpan(std::make_pair(at[sx::Pick("left", 0, 8)], at[sx::Pick("right", 0, 8)])); }
  jsonTrip(*g);
}
SX_HARNESS(prefix) {
  std::unique_ptr<HyperGraph> g(three()); int k = sx::Pick("forest", 0, 3); if (k == 1) g->GetEdge(0)->GetFeatures().Add(Dict::WID("f"), 1); if (k == 2) { CfgData d; d.words.push_back(-1); d.words.push_back(Dict::WID("b")); g->GetEdge(0)->GetTrgData().push_back(d); } if (k == 3) { g->GetEdge(0)->SetScore(-1.5); g->GetNode(1)->GetTrgSpan().insert(2); }
  JSONTreeIO io; std::ostringstream o; io.WriteTree(*g, o); std::string s = o.str(); s = s.substr(0, sx::Pick("cut", 1, s.size() - 1)); std::istringstream in(s + "\n"); bool ok; std::unique_ptr<HyperGraph> h; SX_NOTHROW(h.reset(io.ReadTree(in)), ok); sx::Assert(!ok, "a truncated text is rejected"); sx::Reach("end");
}
SX_HARNESS(bad) {
  // "id" of two nodes, head and tails of one edge; each may be missing or any number
  int a = sx::Pick("id 0", -2, 3), b = sx::Pick("id 1", -2, 3), h = sx::Pick("head", -2, 3), t = sx::Pick("tail", -2, 3), drop = sx::Pick("missing", 0, 6); std::ostringstream o;
  o << "{\"nodes\": [{"; if (drop != 1) o << "\"id\": " << a << ", "; o << "\"sym\": \"A\", \"span\": [0, 1]}, {\"id\": " << b; if (drop != 2) o << ", \"sym\": \"B\""; if (drop != 3) o << ", \"span\": [0, 1]"; o << "}]"; if (drop != 4) { o << ", \"edges\": [{\"id\": 0"; if (drop != 5) o << ", \"head\": " << h; o << ", \"tails\": [" << t << "]}]"; } if (drop != 6) o << ", \"words\": [\"a\"]"; o << "}\n";
  std::istringstream in(o.str()); JSONTreeIO io; bool ok; std::unique_ptr<HyperGraph> g; SX_NOTHROW(g.reset(io.ReadTree(in)), ok);
  bool good = !drop && ((a == 0 && b == 1) || (a == 1 && b == 0)) && h >= 0 && h < 2 && t >= 0 && t < 2 && h != t; sx::Assert(ok == good, "forests with missing fields or numbers out of range are rejected, others accepted"); if (ok) { sx::Assert(g->NumNodes() == 2 && Dict::WSym(g->GetNode(a)->GetSym()) == "A" && g->GetEdge(0)->GetHead() == g->GetNode(h), "the forest that is described"); sx::Reach("accepted"); } sx::Reach("end");
}
// Egret: identity of a node is its label and span, terminals stand for the word of their parent's span
static std::string key(const HyperNode *n) { std::ostringstream o; o << Dict::WSym(n->GetSym()) << '[' << n->GetSpan().first << ',' << n->GetSpan().second << ']' << (n->IsTerminal() ? "t" : ""); return o.str(); }
static std::string ekey(const HyperEdge *e) { std::string s = key(e->GetHead()) + " =>"; for (int i = 0; i < e->NumTails(); i++) s += " " + key(e->GetTail(i)); return s; }
SX_HARNESS(egret) {
  int n = sx::Pick("length", 2, sx::Q(3, 4)); HyperGraph g; std::vector<HyperNode *> pre; HyperNode *root = new HyperNode(Dict::WID("ROOT"), -1, std::make_pair(0, n)); g.AddNode(root); static const double sc[] = {0, -1, -0.5, -40};
  std::vector<std::vector<HyperNode *> > alt(n); std::vector<HyperNode *> first; for (int i = 0; i < n; i++) { WordId w = Dict::WID(sx::Pick(nm("word", i), 0, 1) ? "b" : "a"); g.AddWord(w); int k = sx::Pick(nm("labels", i), 1, i == 0 ? 2 : 1); HyperNode *t = NULL; for (int j = 0; j < k; j++) { HyperNode *p = new HyperNode(Dict::WID(j ? "Y" : "X"), -1, std::make_pair(i, i + 1)); alt[i].push_back(p); pre.push_back(p); } (void)t; }
  // edges are listed from the root down, nodes in order of mention
  std::vector<HyperNode *> mid; for (int j = 0; j < (int)alt[0].size(); j++) { std::vector<HyperNode *> k(1, alt[0][j]); for (int i = 1; i < n; i++) k.push_back(alt[i][0]); for (size_t i = 0; i < k.size(); i++) if (k[i]->GetId() < 0) g.AddNode(k[i]); mkEdge(g, root, k, sc[sx::Pick(nm("score", j), 0, 3)]); }
  bool np = n > 2 && sx::Pick("phrase", 0, 1); if (np) { HyperNode *p = new HyperNode(Dict::WID("NP"), -1, std::make_pair(1, n)); std::vector<HyperNode *> k; k.push_back(alt[0][0]); k.push_back(p); g.AddNode(p); mkEdge(g, root, k, sc[sx::Pick("phrase score", 0, 3)]); k.clear(); for (int i = 1; i < n; i++) k.push_back(alt[i][0]); mkEdge(g, p, k, -2); }
  for (int i = 0; i < n; i++) { HyperNode *t = new HyperNode(g.GetWords()[i], -1, std::make_pair(i, i + 1)); g.AddNode(t); for (size_t j = 0; j < alt[i].size(); j++) mkEdge(g, alt[i][j], std::vector<HyperNode *>(1, t), -0.5); }
  bool norm = sx::Pick("normalise", 0, 1); EgretTreeIO io; io.SetNormalize(norm); std::ostringstream o; io.WriteTree(g, o); o << "\n"; std::string empty; if (sx::Pick("failed parse between", 0, 1)) { HyperGraph e; e.AddWord(Dict::WID("q")); std::ostringstream eo; io.WriteTree(e, eo); empty = eo.str() + "\n"; }
  std::istringstream in(o.str() + empty + o.str()); for (int rep = 0; rep < 2; rep++) { bool ok; std::unique_ptr<HyperGraph> h; SX_NOTHROW(h.reset(io.ReadTree(in)), ok); sx::Assert(ok && h.get(), "a written forest is accepted"); if (!ok || !h.get()) return;
    sx::Assert(h->GetWords() == g.GetWords(), "words"); sx::Assert(h->NumNodes() == g.NumNodes(), "number of nodes"); sx::Assert(h->NumEdges() == g.NumEdges(), "number of edges"); std::set<std::string> a, b; for (int i = 0; i < g.NumNodes(); i++) a.insert(key(g.GetNode(i))); for (int i = 0; i < h->NumNodes(); i++) { b.insert(key(h->GetNode(i))); const HyperNode *x = h->GetNode(i); if (x->IsTerminal()) sx::Assert(x->GetSym() == h->GetWords()[x->GetSpan().first] && x->GetSpan().second == x->GetSpan().first + 1, "terminals stand for the words at their positions"); } sx::Assert(a == b, "nodes with labels and spans"); sx::Assert(key(h->GetNode(0)) == key(root), "the root comes first");
    bool es = true; for (int i = 0; i < std::min(g.NumEdges(), h->NumEdges()); i++) { es &= ekey(g.GetEdge(i)) == ekey(h->GetEdge(i)); if (!norm) sx::Assert(h->GetEdge(i)->GetScore() == g.GetEdge(i)->GetScore(), "scores"); SparseVector f; f.Add(Dict::WID("parse"), h->GetEdge(i)->GetScore()); sx::Assert(h->GetEdge(i)->GetFeatures() == f, "the score is the parse feature"); } sx::Assert(es, "edges in order");
    if (norm) for (int i = 0; i < h->NumNodes(); i++) { const HyperNode *x = h->GetNode(i); double sum = 0; for (int e = 0; e < x->NumEdges(); e++) { sum += exp(x->GetEdge(e)->GetScore()); sx::Assert(fabs((x->GetEdge(e)->GetScore() - x->GetEdge(0)->GetScore()) - (g.GetEdge(x->GetEdge(e)->GetId())->GetScore() - g.GetEdge(x->GetEdge(0)->GetId())->GetScore())) < 1e-6, "normalising keeps the ratios"); } if (x->NumEdges()) sx::Assert(fabs(sum - 1) < 1e-6, "normalised edges of a node sum to one"); }
    if (!rep && empty.size()) { std::unique_ptr<HyperGraph> e; SX_NOTHROW(e.reset(io.ReadTree(in)), ok); sx::Assert(ok && e.get() && e->NumNodes() == 0 && e->GetWords() == Sentence(1, Dict::WID("q")), "a failed parse keeps its words"); } }
  std::unique_ptr<HyperGraph> last(io.ReadTree(in)); sx::Assert(!last.get(), "the end of the stream is reported"); sx::Reach("end");
}
SX_HARNESS(many) {
  int n = sx::Q(12, 120); HyperGraph g; for (int i = 0; i < n; i++) { g.AddNode(new HyperNode(Dict::WID("A"), -1, std::make_pair(i, n))); g.AddWord(Dict::WID("w")); } for (int i = 0; i + 1 < n; i++) mkEdge(g, g.GetNode(i), std::vector<HyperNode *>(1, g.GetNode(i + 1)), -i);
  int h = sx::Pick("head", 0, n - 2), t = sx::Pick("tail", h + 1, n - 1); std::vector<HyperNode *> k(1, g.GetNode(t)); if (sx::Pick("two tails", 0, 1)) k.push_back(g.GetNode(n - 1)); mkEdge(g, g.GetNode(h), k, -0.5); jsonTrip(g);
}
SX_HARNESS(egretname) {
  static const char *lab[] = {"X", "[", "]", "X[1,2]", "[0,0]", "a[", "=>", ",", "-LRB-", "\\d", "X|||", "\xc3\xa9"}, *wd[] = {"w", "[", "[1,2", "1,2]", "a[1,]", "a[x,2]", "=>", "sentence", "(.*)", "||", "\xc3\xa9", "-1"}; static const int pos[] = {0, 1, 9, 10, 99, 100, 999, 1000};
  int n = sx::Pick("preterminals", 1, 2), at = pos[sx::Pick("position", 0, 7)], len = pos[sx::Pick("distance", 1, 4)]; WordId l = Dict::WID(lab[sx::Pick("label", 0, 11)]), w = Dict::WID(wd[sx::Pick("word", 0, 11)]); HyperGraph g; g.AddWord(w); HyperNode *root = new HyperNode(l, -1, std::make_pair(at, at + len + 1)); g.AddNode(root); std::vector<HyperNode *> k; for (int i = 0; i < n; i++) { int b = i ? at + len : at; HyperNode *p = new HyperNode(i || n == 2 ? l : Dict::WID("P"), -1, std::make_pair(b, b + 1)); g.AddNode(p); k.push_back(p); } mkEdge(g, root, k, -1); for (int i = 0; i < n; i++) { HyperNode *t = new HyperNode(w, -1, k[i]->GetSpan()); g.AddNode(t); mkEdge(g, k[i], std::vector<HyperNode *>(1, t), -0.5); }
  EgretTreeIO io; io.SetNormalize(false); std::ostringstream o; io.WriteTree(g, o); o << "\n"; std::istringstream in(o.str()); bool ok; std::unique_ptr<HyperGraph> h; SX_NOTHROW(h.reset(io.ReadTree(in)), ok); sx::Assert(ok && h.get(), "a written forest is accepted"); if (!ok || !h.get()) return;
  sx::Assert(h->GetWords() == g.GetWords() && h->NumNodes() == g.NumNodes() && h->NumEdges() == g.NumEdges(), "words and number of nodes and edges"); std::multiset<std::string> a, b; for (int i = 0; i < g.NumNodes(); i++) a.insert(key(g.GetNode(i))); for (int i = 0; i < h->NumNodes(); i++) b.insert(key(h->GetNode(i))); sx::Assert(a == b, "nodes with labels and spans"); bool es = true; for (int i = 0; i < std::min(g.NumEdges(), h->NumEdges()); i++) es &= ekey(g.GetEdge(i)) == ekey(h->GetEdge(i)) && g.GetEdge(i)->GetScore() == h->GetEdge(i)->GetScore(); sx::Assert(es, "edges in order"); sx::Reach("end");
}
SX_HARNESS(egretbad) {
  static const char *tok[] = {"S[0,0]", "a", "=>", "|||", "-1"}; int n = sx::Pick("tokens", 1, 5); std::string line; std::vector<int> k; for (int i = 0; i < n; i++) { k.push_back(sx::Pick(nm("token", i), 0, 4)); line += tok[k[i]]; line += ' '; }
  std::string head = sx::Pick("header", 0, 1) ? "sentence 1 :\n" : "sent\n"; std::istringstream in(head + "a\n" + line + "\n\n"); EgretTreeIO io; io.SetNormalize(false); bool ok; std::unique_ptr<HyperGraph> g; SX_NOTHROW(g.reset(io.ReadTree(in)), ok);
  int bar = -1; for (int i = 2; i < n && bar < 0; i++) if (k[i] == 3) bar = i; bool good = head[8] == ' ' && n > 1 && k[1] == 2 && bar > 0; for (int i = 2; i < bar; i++) if (k[i] == k[0]) good = false; // a node cannot be its own child
  if (!good) sx::Assert(!ok, "a malformed line is rejected"); else if (bar == n - 2 && k[n - 1] == 4) { sx::Assert(ok, "a well formed line is accepted"); if (ok) { sx::Assert(g->NumEdges() == 1 && g->GetEdge(0)->NumTails() == bar - 2 && g->GetEdge(0)->GetScore() == -1, "the edge that is described"); sx::Reach("accepted"); } } sx::Reach("end");
}
