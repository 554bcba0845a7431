// @sources lib/tree-io.cc lib/io-util.cc lib/hyper-graph.cc lib/dict.cc lib/util.cc lib/cfg-data.cc lib/sparse-map.cc
// @bounds penn, rule, moses: every tree with up to 3 levels below the root (1..2, at the root 1..3 children, chains of unary nodes included) and up to 5 (penn 6, thorough 7) labelled nodes, labels from 4 and words from 6 awkward spellings (below the root 2 each); several trees in one stream
// @bounds text: every Penn text of length 0..8 (thorough 11) over {open, close, blank, a, newline}
// @bounds ruletext: every rule-form text of up to 6 (thorough 8) tokens from {A, (, ), "w", "}
// @bounds wordtree: every line of up to 4 bytes over {a, b, blank, tab}
// @assume Penn labels and words have no blanks or parentheses; rule-form labels are not quoted or parentheses; words are not empty
// @harness penn quick=15 thorough=200
// @harness rule quick=15 thorough=200
// @harness moses quick=10 thorough=100
// @harness text quick=20 thorough=300
// @harness ruletext quick=10 thorough=100
// @harness wordtree quick=5 thorough=20
#include "hg.h"
#include <travatar/tree-io.h>
#include <memory>
struct T { std::string lab; std::vector<T> kids; bool word; };
static const char *labels[] = {"A", "-X:1", "a\"b", "|||"}, *wds[] = {"w", "\"", "\\", "<&>", "@", "\xff\xc3"};
static T gen(int depth, int &left, int nl, int nw, int maxKids) {
  T t; t.word = false; static int cnt; if (depth == 0) cnt = 0; t.lab = labels[sx::Pick(nm("label", cnt), 0, nl)]; int id = cnt++; left--; 
  int k = depth >= 3 || left <= 0 ? 0 : sx::Pick(nm("children", id), 0, std::min(maxKids, left));
  if (!k) { T w; w.word = true; w.lab = wds[sx::Pick(nm("word", id), 0, nw)]; t.kids.push_back(w); }
  left -= k; for (int i = 0; i < k; i++) { left++; t.kids.push_back(gen(depth + 1, left, nl ? 1 : 0, nw ? 1 : 0, 2)); }
  return t;
}
static HyperNode *build(HyperGraph &g, const T &t) {
  HyperNode *n = new HyperNode(Dict::WID(t.lab)); g.AddNode(n); n->GetSpan().first = g.GetWords().size();
  if (t.word) g.GetWords().push_back(Dict::WID(t.lab)); else { HyperEdge *e = new HyperEdge(n); g.AddEdge(e); n->AddEdge(e); for (size_t i = 0; i < t.kids.size(); i++) e->AddTail(build(g, t.kids[i])); }
  n->GetSpan().second = g.GetWords().size(); return n;
}
static std::string penn(const T &t) { if (t.word) return t.lab; std::string s = "(" + t.lab; for (size_t i = 0; i < t.kids.size(); i++) s += " " + penn(t.kids[i]); return s + ")"; }
static std::string ruleForm(const T &t) { if (t.word) return '"' + t.lab + '"'; std::string s = t.lab + " ( "; for (size_t i = 0; i < t.kids.size(); i++) s += ruleForm(t.kids[i]) + " "; return s + ")"; }
static std::string esc(const std::string &s) { std::string r; for (size_t i = 0; i < s.size(); i++) r += s[i] == '<' ? "&lt;" : s[i] == '>' ? "&gt;" : s[i] == '&' ? "&amp;" : s[i] == '"' ? "&quot;" : s[i] == '\'' ? "&apos;" : std::string(1, s[i]); return r; }
static std::string moses_(const T &t) { if (t.word) return esc(t.lab); std::string s = "<tree label=\"" + esc(t.lab) + "\">"; for (size_t i = 0; i < t.kids.size(); i++) s += " " + moses_(t.kids[i]); return s + " </tree>"; }
static bool sameGraph(const HyperGraph &a, const HyperGraph &b) {
  bool ok = a.GetWords() == b.GetWords() && a.NumNodes() == b.NumNodes() && a.NumEdges() == b.NumEdges(); if (!ok) return false;
  for (int i = 0; i < a.NumNodes(); i++) { const HyperNode *x = a.GetNode(i), *y = b.GetNode(i); ok &= x->GetSym() == y->GetSym() && x->GetSpan() == y->GetSpan() && x->GetId() == i && y->GetId() == i && x->NumEdges() == y->NumEdges(); if (x->NumEdges() != y->NumEdges()) return false; for (int e = 0; e < x->NumEdges(); e++) { ok &= x->GetEdge(e)->GetId() == y->GetEdge(e)->GetId() && y->GetEdge(e)->GetHead() == y && y->GetEdge(e) == b.GetEdge(y->GetEdge(e)->GetId()) && x->GetEdge(e)->NumTails() == y->GetEdge(e)->NumTails(); if (!ok) return false; for (int t = 0; t < x->GetEdge(e)->NumTails(); t++) ok &= x->GetEdge(e)->GetTail(t)->GetId() == y->GetEdge(e)->GetTail(t)->GetId(); } }
  return ok;
}
template <class IO> static void trip(std::string (*spell)(const T &), int nl, int nw, int quick) {
  int left = sx::Q(quick, 7); T t = gen(0, left, nl, nw, 3); HyperGraph g; build(g, t); IO io; std::ostringstream o; io.WriteTree(g, o); sx::Assert(o.str() == spell(t), "the tree is written in its format");
  std::istringstream in(o.str() + "\n" + o.str() + "\n"); std::unique_ptr<HyperGraph> a(io.ReadTree(in)), b(io.ReadTree(in)), c(io.ReadTree(in));
  sx::Assert(a.get() && sameGraph(g, *a), "the tree is read back"); sx::Assert(b.get() && sameGraph(g, *b), "the next tree of the stream is read"); sx::Assert(!c.get(), "the end of the stream is reported");
  if (a.get()) { std::ostringstream o2; io.WriteTree(*a, o2); sx::Assert(o2.str() == o.str(), "writing again gives the same text"); } sx::Reach("end");
}
SX_HARNESS(penn) { trip<PennTreeIO>(penn, 3, 5, 6); }
SX_HARNESS(rule) { trip<RuleTreeIO>(ruleForm, 3, 5, 5); }
SX_HARNESS(moses) { int left = sx::Q(5, 7); T t = gen(0, left, 3, 5, 3); HyperGraph g; build(g, t); MosesXMLTreeIO io; std::ostringstream o; io.WriteTree(g, o); sx::Assert(o.str() == moses_(t), "the tree is written as nested elements with escaped text"); sx::Reach("end"); }
// first tree of a text: 1 tree, 0 none (blank, or the text ends inside), -1 malformed, 2 the empty tree
struct P { const std::string &s; size_t i; P(const std::string &x) : s(x), i(0) {} bool ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; } void skip() { while (i < s.size() && ws(s[i])) i++; }
  int node(T &t, bool top) { // after '('
    if (top && i < s.size() && s[i] == ')') { i++; return 2; }
    t.word = false; while (i < s.size() && !ws(s[i])) { if (s[i] == '(' || s[i] == ')') return -1; t.lab += s[i++]; } if (i == s.size()) return t.lab.empty() ? -1 : 0; if (t.lab.empty()) return -1;
    skip(); if (i < s.size() && s[i] != '(') { T w; w.word = true; while (i < s.size() && s[i] != ')') { if (ws(s[i]) || s[i] == '(') return -1; w.lab += s[i++]; } if (i == s.size()) return 0; t.kids.push_back(w); }
    for (;;) { skip(); if (i == s.size()) return 0; if (s[i] == ')') { i++; return 1; } if (s[i] != '(') return -1; i++; t.kids.push_back(T()); int r = node(t.kids.back(), false); if (r != 1) return r; } }
  int top(T &t) { skip(); if (i == s.size()) return 0; if (s[i] != '(') return -1; i++; return node(t, true); } };
SX_HARNESS(text) {
  std::string s = sx::Str("text", sx::Pick("length", 0, sx::Q(8, 11)), "() a\n"); std::istringstream in(s); PennTreeIO io; bool ok; std::unique_ptr<HyperGraph> g; SX_NOTHROW(g.reset(io.ReadTree(in)), ok);
  T t; P p(s); int r = p.top(t);
  if (r <= 0) sx::Assert(!ok || !g.get(), "malformed or unfinished text does not give a tree");
  else { sx::Assert(ok && g.get(), "a well formed tree is accepted"); if (!ok || !g.get()) return; sx::Assert((size_t)in.tellg() == p.i, "nothing after the tree is consumed"); if (r == 2) sx::Assert(g->NumNodes() == 0, "() is the empty tree"); else { HyperGraph w; build(w, t); sx::Assert(sameGraph(w, *g), "the tree that is read is the one that was written"); sx::Reach("tree"); } }
  if (r < 0) sx::Assert(!ok || !g.get(), "malformed text is not a tree"); sx::Reach("end");
}
SX_HARNESS(ruletext) {
  static const char *tok[] = {"A", "(", ")", "\"w\"", "\""}; int n = sx::Pick("tokens", 0, sx::Q(6, 8)); std::vector<int> k; std::string s; for (int i = 0; i < n; i++) { k.push_back(sx::Pick(nm("token", i), 0, 4)); s += tok[k[i]]; s += ' '; }
  std::istringstream in(s); RuleTreeIO io; bool ok; std::unique_ptr<HyperGraph> g; SX_NOTHROW(g.reset(io.ReadTree(in)), ok);
  // reference reader with an explicit stack
  std::vector<T *> st; T root; int r = 0, i = 0; bool open = false;
  for (; i < n && !r; ) { int c = k[i++]; if (open) { if (c != 1) r = -1; open = false; continue; } if (c == 2) { if (st.empty()) r = -1; else { st.pop_back(); if (st.empty()) r = 1; } } else if (c == 3) { T w; w.word = true; w.lab = "w"; if (st.empty()) { root = w; r = 1; } else st.back()->kids.push_back(w); } else if (c == 1 && false) r = -1; else { T x; x.word = false; x.lab = tok[c]; if (st.empty()) { root = x; st.push_back(&root); } else { st.back()->kids.reserve(8); st.back()->kids.push_back(x); st.push_back(&st.back()->kids.back()); } open = true; } }
  if (r == 1) { sx::Assert(ok && g.get(), "a well formed tree is accepted"); if (!ok || !g.get()) return; HyperGraph w; build(w, root); sx::Assert(sameGraph(w, *g), "the tree that is read is the one that was written"); sx::Reach("tree"); } else if (r < 0) sx::Assert(!ok, "malformed text is rejected"); else sx::Assert(!ok || !g.get(), "unfinished text does not give a tree");
  sx::Reach("end");
}
SX_HARNESS(wordtree) {
  std::string s = sx::Str("line", sx::Pick("length", 0, 4), "ab \t"); std::istringstream in(s + "\nb\n"); WordTreeIO io; std::unique_ptr<HyperGraph> g(io.ReadTree(in)), h(io.ReadTree(in)), e(io.ReadTree(in)); sx::Assert(g.get() && h.get() && !e.get(), "one tree per line");
  T t; t.word = false; t.lab = "X"; std::istringstream is(s); std::string w; while (is >> w) { T x, y; x.word = false; x.lab = "X"; y.word = true; y.lab = w; x.kids.push_back(y); t.kids.push_back(x); }
  HyperGraph want; build(want, t); sx::Assert(sameGraph(want, *g), "a flat tree over the words of the line"); std::ostringstream o; io.WriteTree(*g, o); sx::Assert(o.str() == Dict::PrintWords(want.GetWords()), "written as the line of words"); sx::Assert(h->GetWords() == Sentence(1, Dict::WID("b")), "the next line"); sx::Reach("end");
}
