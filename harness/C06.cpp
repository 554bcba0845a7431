// @sources lib/forest-extractor.cc lib/alignment.cc lib/hyper-graph.cc lib/rule-filter.cc lib/dict.cc lib/util.cc lib/cfg-data.cc lib/sparse-map.cc
// @bounds minimal: every tree of 1..3 (thorough 4) source words with nodes of up to 3 (4) children over preterminals, optionally with one unary node (above the root or above the first preterminal), every alignment matrix with 1..3 target words, with and without labelled target spans; without null attachment and with attachment to the top
// @bounds forest: every packed forest of 3 words with both bracketings of the root, every alignment matrix with 3 target words
// @bounds exhaustive: the trees of up to 3 words, every alignment matrix with 3 (thorough 4, one aligned position per source word at most) target words, attachment of up to 1 (thorough 2) unaligned words on each side, at most 0..5 variables expanded
// @bounds three: three preterminals below the root, each aligned to at most one position of 4 target words, attachment of up to 1 word on each side
// @bounds further: trees of one or two words, each aligned to at most one position of 5 (thorough 6) target words, attachment of up to 2 or 3 words on each side
// @harness further quick=8 thorough=30
// @bounds outside: one link to target position 2..70 of a sentence of 2 words
// @assume words are dominated by preterminals; source nodes are numbered in pre-order as the tree readers number them
// @harness minimal quick=20 thorough=400
// @harness forest quick=8 thorough=60
// @harness exhaustive quick=15 thorough=300
// @harness three quick=10 thorough=30
// @harness outside quick=3 thorough=5
#include "hg.h"
#include <travatar/forest-extractor.h>
#include <travatar/alignment.h>
#include <memory>
struct T { std::string lab; std::vector<T *> kids; int b, e; std::set<int> trg; bool front; HyperNode *node; };
struct World {
  HyperGraph g; std::vector<T *> all; int n, m; std::vector<std::set<int> > link; Alignment al; Sentence src, trg; LabeledSpans labs; bool haveLabs; int unary; bool usedUnary;
  std::string word(int i) { return std::string("s") + char('0' + i); } std::string tword(int i) { return std::string("t") + char('0' + i); }
  T *mk(int b, int e) { T *t = new T; t->b = b; t->e = e; t->node = new HyperNode; t->node->SetSpan(std::make_pair(b, e)); t->lab = std::string(1, char('A' + all.size())); t->node->SetSym(Dict::WID(t->lab)); g.AddNode(t->node); all.push_back(t); return t; }
  void link1(T *p) { std::vector<HyperNode *> t; for (size_t i = 0; i < p->kids.size(); i++) t.push_back(p->kids[i]->node); RuleEdge *e = new RuleEdge(p->node); e->SetTails(t); g.AddEdge(e); p->node->AddEdge(e); }
  // children are created before the edge of the parent is added; numbering is pre-order
  T *build(int b, int e, bool root) {
    T *t = mk(b, e);
    if ((unary == 1 && root) || (unary == 2 && e - b == 1 && !usedUnary)) { usedUnary = true; int u = unary; unary = 0; t->kids.push_back(build(b, e, false)); unary = u; link1(t); return t; }
    if (e - b == 1) { T *w = new T; w->b = b; w->e = e; w->lab = word(b); w->node = new HyperNode; w->node->SetSpan(std::make_pair(b, e)); w->node->SetSym(Dict::WID(w->lab)); g.AddNode(w->node); all.push_back(w); t->kids.push_back(w); link1(t); return t; }
    int mask = sx::Pick(nm("split", b, e), 1, (1 << (e - b - 1)) - 1), from = b;
    for (int i = b + 1; i <= e; i++) if (i == e || (mask >> (i - b - 1) & 1)) { t->kids.push_back(build(from, i, false)); from = i; }
    link1(t); return t;
  }
  void links(bool single) {
    link.resize(n);
    for (int i = 0; i < n; i++) {
      if (single) { int j = sx::Pick(nm("aligned", i), -1, m - 1); if (j >= 0) link[i].insert(j); }
      else { int k = sx::Pick(nm("aligned", i), 0, (1 << m) - 1); for (int j = 0; j < m; j++) if (k >> j & 1) link[i].insert(j); }
      BOOST_FOREACH(int j, link[i]) al.AddAlignment(std::make_pair(i, j));
      src.push_back(Dict::WID(word(i)));
    }
    for (int j = 0; j < m; j++) trg.push_back(Dict::WID(tword(j)));
    g.SetWords(src);
    haveLabs = false;
  }
  void spans() { for (size_t k = 0; k < all.size(); k++) { T *t = all[k]; t->trg.clear(); std::set<int> comp; for (int i = 0; i < n; i++) BOOST_FOREACH(int j, link[i]) { if (i >= t->b && i < t->e) t->trg.insert(j); else comp.insert(j); }
    t->front = t->kids.size() && t->trg.size(); if (t->front) for (int j = *t->trg.begin(); j <= *t->trg.rbegin(); j++) if (comp.count(j)) t->front = false; } }
  // source side of the rule at t and its variables, from left to right
  std::string source(T *t, bool top, std::vector<T *> &vars, std::vector<T *> &frag) {
    if (!t->kids.size()) return "\"" + t->lab + "\"";
    if (!top && t->front) { std::string s = std::string("x") + char('0' + vars.size()) + ":" + t->lab; vars.push_back(t); return s; }
    frag.push_back(t); std::string s = t->lab + " ("; for (size_t i = 0; i < t->kids.size(); i++) s += " " + source(t->kids[i], false, vars, frag); return s + " )";
  }
  std::string label(int b, int e, const char *pre) { LabeledSpans::const_iterator it = labs.find(std::make_pair(b, e)); return haveLabs && it != labs.end() ? pre + Dict::WSym(it->second) : std::string(); }
  // the rule over target range [tb,te) with variables covering the ranges vr
  std::string rule(T *t, int tb, int te, const std::vector<std::pair<int, int> > &vr) {
    std::vector<T *> vars, frag; std::string s = source(t, true, vars, frag) + " |||"; std::vector<int> tw;
    for (int j = tb; j < te;) { int v = -1; for (size_t k = 0; k < vr.size(); k++) if (vr[k].first == j) v = k; if (v < 0) { s += " \"" + tword(j) + "\""; tw.push_back(j); j++; } else { s += std::string(" x") + char('0' + v) + label(vr[v].first, vr[v].second, ":"); j = vr[v].second; } }
    s += label(tb, te, " @ ") + " ||| 1 ||| "; int sw = 0; bool any = false;
    for (int i = t->b; i < t->e; i++) { bool covered = false; for (size_t k = 0; k < vars.size(); k++) covered |= vars[k]->b <= i && i < vars[k]->e; if (covered) continue; for (size_t k = 0; k < tw.size(); k++) if (link[i].count(tw[k])) { if (any) s += ' '; any = true; s += char('0' + sw); s += '-'; s += char('0' + k); } sw++; }
    return s;
  }
};
static std::string compose(const World &w, const HyperGraph &g, const HyperNode *n, const ForestExtractor &ex) {
  const RuleEdge *r = static_cast<const RuleEdge *>(n->GetEdge(0)); std::string s = ex.RuleToString(*r, w.src, w.trg, w.al, NULL);
  size_t a = s.find(" ||| "), b = s.find(" ||| ", a + 1); CfgData d = Dict::ParseAnnotatedWords(s.substr(a + 5, b - a - 5)); std::string out;
  BOOST_FOREACH(int x, d.words) { if (out.size()) out += ' '; out += x >= 0 ? Dict::WSym(x) : compose(w, g, r->GetTail(-1 - x), ex); }
  return out;
}
static void checkMinimal(World &w, const HyperGraph &rg, const ForestExtractor &ex, bool top) {
  std::vector<T *> fr; for (size_t k = 0; k < w.all.size(); k++) if (w.all[k]->front) fr.push_back(w.all[k]);
  sx::Assert(rg.NumNodes() == (int)fr.size() && rg.NumEdges() == (int)fr.size(), "one node and one minimal rule per frontier node"); sx::Assert(rg.GetWords() == w.src, "the words are kept");
  std::vector<std::pair<int, int> > span;
  for (size_t k = 0; k < fr.size(); k++) span.push_back(std::make_pair(*fr[k]->trg.begin(), *fr[k]->trg.rbegin() + 1));
  if (top && fr.size()) span[0] = std::make_pair(0, w.m);
  for (size_t k = 0; k < fr.size(); k++) {
    const HyperNode *n = rg.GetNode(k); sx::Assert(n->GetSym() == Dict::WID(fr[k]->lab) && n->GetSpan() == std::make_pair(fr[k]->b, fr[k]->e), "nodes keep label and span"); if (!top) sx::Assert(n->GetTrgSpan() == fr[k]->trg, "nodes know their aligned target words");
    sx::Assert(n->NumEdges() == 1 && n->GetEdge(0)->GetHead() == n, "one minimal rule"); const RuleEdge *r = static_cast<const RuleEdge *>(n->GetEdge(0));
    std::vector<T *> vars, frag; w.source(fr[k], true, vars, frag); sx::Assert(r->NumTails() == (int)vars.size() && r->GetFragmentEdges().size() == frag.size(), "the rule covers the fragment up to the next frontier");
    std::vector<std::pair<int, int> > vr;
    for (size_t v = 0; v < vars.size(); v++) { size_t p = std::find(fr.begin(), fr.end(), vars[v]) - fr.begin(); sx::Assert(r->GetTail(v) == rg.GetNode(p), "variables are the frontier children from left to right"); vr.push_back(span[p]); }
    for (size_t f = 0; f < frag.size(); f++) sx::Assert(r->GetFragmentEdges()[f]->GetHead() == frag[f]->node, "the fragment lists its tree edges in order");
    std::string got = ex.RuleToString(*r, w.src, w.trg, w.al, w.haveLabs ? &w.labs : NULL); sx::Assert(got == w.rule(fr[k], span[k].first, span[k].second, vr), "the rule is the fragment, the target words of its span and its variables");
  }
}
SX_HARNESS(minimal) {
  World w; w.n = sx::Pick("source words", 1, sx::Q(3, 4)); w.m = sx::Pick("target words", 1, 3); w.usedUnary = false; w.unary = sx::Pick("unary", 0, 2); w.build(0, w.n, true); w.links(false); w.spans();
  w.haveLabs = sx::Pick("labels", 0, 1); for (int i = 0; i < w.m; i++) for (int j = i + 1; j <= w.m; j++) if ((i + j) % 3) w.labs[std::make_pair(i, j)] = Dict::WID(std::string("L") + char('0' + i) + char('0' + j));
  ForestExtractor ex; boost::shared_ptr<HyperGraph> rg(ex.ExtractMinimalRules(w.g, w.al)); sx::Assert(rg->GetEdgeType() == HyperGraph::RULE_EDGE, "the result is a rule graph");
  checkMinimal(w, *rg, ex, false);
  boost::shared_ptr<HyperGraph> top(ex.AttachNullsTop(*rg, w.al, w.m)); checkMinimal(w, *top, ex, true);
  if (top->NumNodes()) { sx::Reach("aligned"); sx::Assert(compose(w, *top, top->GetNode(0), ex) == Dict::PrintWords(w.trg), "composing the rules gives the target sentence"); }
  checkMinimal(w, *rg, ex, false);
  sx::Reach("end");
}
SX_HARNESS(forest) {
  // S -> (X c) | (a Y) over preterminals a b c
  World w; w.n = 3; w.m = 3; w.unary = 0; T *S = w.mk(0, 3), *X = w.mk(0, 2), *Y = w.mk(1, 3); T *p[3]; for (int i = 0; i < 3; i++) p[i] = w.build(i, i + 1, false);
  X->kids.push_back(p[0]); X->kids.push_back(p[1]); w.link1(X); Y->kids.push_back(p[1]); Y->kids.push_back(p[2]); w.link1(Y);
  S->kids.push_back(X); S->kids.push_back(p[2]); w.link1(S); std::vector<T *> k1 = S->kids, k2; k2.push_back(p[0]); k2.push_back(Y); S->kids = k2; w.link1(S);
  w.links(false); w.spans(); ForestExtractor ex; boost::shared_ptr<HyperGraph> rg(ex.ExtractMinimalRules(w.g, w.al));
  std::multiset<std::string> want, got;
  for (size_t k = 0; k < w.all.size(); k++) if (w.all[k]->front) for (int alt = 0; alt < (w.all[k] == S ? 2 : 1); alt++) {
    if (w.all[k] == S) S->kids = alt ? k2 : k1; std::vector<T *> vars, frag; w.source(w.all[k], true, vars, frag); std::vector<std::pair<int, int> > vr; for (size_t v = 0; v < vars.size(); v++) vr.push_back(std::make_pair(*vars[v]->trg.begin(), *vars[v]->trg.rbegin() + 1));
    want.insert(w.rule(w.all[k], *w.all[k]->trg.begin(), *w.all[k]->trg.rbegin() + 1, vr)); }
  BOOST_FOREACH(const HyperEdge *e, rg->GetEdges()) { sx::Assert(std::count(e->GetHead()->GetEdges().begin(), e->GetHead()->GetEdges().end(), e) == 1, "a rule is listed once under its head"); got.insert(ex.RuleToString(*static_cast<const RuleEdge *>(e), w.src, w.trg, w.al, NULL)); }
  sx::Assert(want == got, "each alternative of a forest gives its minimal rule");
  sx::Reach("end");
}
static void attach(World &w, int att, int mx);
SX_HARNESS(exhaustive) {
  World w; w.n = sx::Pick("source words", 1, 3); w.m = sx::Q(3, 4); w.usedUnary = false; w.unary = sx::Pick("unary", 0, 1); w.build(0, w.n, true); w.links(true); w.spans();
  int att = sx::Pick("attach", 0, sx::Q(1, 2)), mx = sx::Pick("max variables", 0, 2) * 2 + 1; if (mx == 3) mx = 2; attach(w, att, mx);
}
SX_HARNESS(three) {
  World w; w.n = 3; w.m = 4; w.usedUnary = false; w.unary = 0; T *S = w.mk(0, 3); for (int i = 0; i < 3; i++) S->kids.push_back(w.build(i, i + 1, false)); w.link1(S);
  w.links(true); w.spans(); attach(w, 1, 5);
}
SX_HARNESS(further) {   // several unaligned words in a row
  World w; w.n = sx::Pick("source words", 1, 2); w.m = sx::Q(5, 6); w.usedUnary = false; w.unary = 0; w.build(0, w.n, true); w.links(true); w.spans(); attach(w, sx::Pick("attach", 2, 3), 5);
}
static void attach(World &w, int att, int mx) {
  ForestExtractor ex; ex.SetMaxAttach(att); ex.SetMaxNonterm(mx); boost::shared_ptr<HyperGraph> rg(ex.ExtractMinimalRules(w.g, w.al)); boost::shared_ptr<HyperGraph> out(ex.AttachNullsExhaustive(*rg, w.al, w.m));
  std::vector<bool> null(w.m, true); for (int i = 0; i < w.n; i++) BOOST_FOREACH(int j, w.link[i]) null[j] = false;
  std::vector<T *> fr; for (size_t k = 0; k < w.all.size(); k++) if (w.all[k]->front) fr.push_back(w.all[k]);
  if (!fr.size()) { sx::Assert(out->NumNodes() == 0, "nothing to attach to"); sx::Reach("end"); return; }
  typedef std::pair<int, int> Rg; std::vector<std::vector<Rg> > exps(fr.size()); std::vector<std::vector<int> > tails(fr.size());
  for (size_t k = 0; k < fr.size(); k++) { std::vector<T *> vars, frag; w.source(fr[k], true, vars, frag); for (size_t v = 0; v < vars.size(); v++) tails[k].push_back(std::find(fr.begin(), fr.end(), vars[v]) - fr.begin()); }
  std::vector<int> amount(fr.size(), att); for (size_t k = 0; k < fr.size(); k++) for (size_t v = 0; v < tails[k].size(); v++) amount[tails[k][v]] = (int)tails[k].size() > mx ? 0 : att;
  for (size_t k = 0; k < fr.size(); k++) { int b = *fr[k]->trg.begin(), e = *fr[k]->trg.rbegin() + 1; for (int l = 0; l <= amount[k] && (l == 0 || (b - l >= 0 && null[b - l])); l++) for (int r = 0; r <= amount[k] && (r == 0 || (e + r <= w.m && null[e + r - 1])); r++) exps[k].push_back(Rg(b - l, e + r)); }
  std::multiset<std::string> want, got; int nodes = 1;
  for (size_t k = 0; k < fr.size(); k++) {
    nodes += exps[k].size();
    for (size_t h = 0; h < exps[k].size(); h++) {
      std::vector<std::vector<Rg> > part(1);
      for (size_t v = 0; v < tails[k].size(); v++) { std::vector<std::vector<Rg> > np; for (size_t a = 0; a < part.size(); a++) for (size_t x = 0; x < exps[tails[k][v]].size(); x++) { Rg r = exps[tails[k][v]][x]; bool ok = r.first >= exps[k][h].first && r.second <= exps[k][h].second; for (size_t y = 0; y < part[a].size(); y++) ok &= r.second <= part[a][y].first || part[a][y].second <= r.first; if (ok) { np.push_back(part[a]); np.back().push_back(r); } } part.swap(np); }
      for (size_t a = 0; a < part.size(); a++) want.insert(w.rule(fr[k], exps[k][h].first, exps[k][h].second, part[a]));
    }
  }
  sx::Assert(out->NumNodes() == nodes, "one node per way of attaching unaligned words, and a root"); const HyperNode *root = out->GetNode(0); sx::Assert(root->NumEdges() == (int)exps[0].size() && root->IsFrontier() == HyperNode::NOT_FRONTIER, "the new root leads to every extension of the old one");
  int k = 0; BOOST_FOREACH(const HyperEdge *e, out->GetEdges()) { sx::Assert(e->GetId() == k++, "edges are numbered"); if (e->GetHead() != root) got.insert(ex.RuleToString(*static_cast<const RuleEdge *>(e), w.src, w.trg, w.al, NULL)); else sx::Assert(e->NumTails() == 1 && e->GetTail(0)->GetSym() == Dict::WID(fr[0]->lab), "root edges"); }
  sx::Assert(want == got, "rules with attached words are exactly the non-overlapping extensions");
  sx::Reach("end");
}
SX_HARNESS(outside) {
  World w; w.n = 2; w.m = 2; w.usedUnary = false; w.unary = 0; w.build(0, 2, true); w.links(false); int pos = sx::Pick("outside", 2, 70), at = sx::Pick("word", 0, 1); w.al.AddAlignment(std::make_pair(at, pos)); w.link[at].insert(pos);
  ForestExtractor ex; boost::shared_ptr<HyperGraph> rg(ex.ExtractMinimalRules(w.g, w.al)), top; bool ok;
  SX_NOTHROW(top.reset(ex.AttachNullsTop(*rg, w.al, 2)), ok); sx::Assert(!ok, "links outside the target sentence are rejected (top)");
  SX_NOTHROW(top.reset(ex.AttachNullsExhaustive(*rg, w.al, 2)), ok); sx::Assert(!ok, "links outside the target sentence are rejected (exhaustive)");
  BOOST_FOREACH(const HyperEdge *e, rg->GetEdges()) if (*e->GetHead()->GetTrgSpan().rbegin() >= 2) { std::string s; SX_NOTHROW(s = ex.RuleToString(*static_cast<const RuleEdge *>(e), w.src, w.trg, w.al, NULL), ok); sx::Assert(!ok, "rules outside the target sentence are rejected"); }
  sx::Reach("end");
}
