// @sources lib/forest-extractor.cc lib/alignment.cc lib/lookup-table.cc lib/lookup-table-hash.cc lib/lookup-table-marisa.cc lib/rule-fsm.cc lib/lookup-table-fsm.cc lib/translation-rule.cc lib/translation-rule-hiero.cc lib/hyper-graph.cc lib/dict.cc lib/util.cc lib/cfg-data.cc lib/sparse-map.cc marisa/marisa/keyset.cc marisa/marisa/trie.cc marisa/marisa/agent.cc marisa/marisa/grimoire/vector/bit-vector.cc marisa/marisa/grimoire/io/reader.cc marisa/marisa/grimoire/io/writer.cc marisa/marisa/grimoire/io/mapper.cc marisa/marisa/grimoire/trie/tail.cc marisa/marisa/grimoire/trie/louds-trie.cc
// @bounds tree: every rule over a root (2 labels) with 1..2 (thorough 3) children, each a preterminal with a word or a variable, the first with a label from 3 and a word from 6 awkward spellings (quotes, bars, brackets, variable-like), target sides of 1..3 words and variables in every order, with or without labels on head and variables; read by both rule tables and matched against the tree
// @bounds flat: every rule of 1..3 source items (words and up to 2 labelled variables), every order of the variables on the target side with 0..2 words around them, one or two target factors; read into a grammar
// @assume node labels are not bars; words and labels contain no blanks
// @harness tree quick=20 thorough=300
// @bounds deep: every rule over two levels: a root with 1..2 children, each a preterminal or an inner node over 1..2 preterminals, cut at any of the nodes, with every order of up to 4 variables on the target side and a word in any place, read back into both tables
// @harness deep quick=20 thorough=120
// @harness flat quick=15 thorough=120
#include "hg.h"
#include <travatar/forest-extractor.h>
#include <travatar/alignment.h>
#include <travatar/lookup-table-hash.h>
#include <travatar/lookup-table-marisa.h>
#include <travatar/rule-fsm.h>
#include <travatar/translation-rule-hiero.h>
#include <memory>
static const char *wd[] = {"a", "\"", "|||", "x0:NP", "@", ")"}, *lb[] = {"NP", "x1:A", "("};
SX_HARNESS(tree) {
  int k = sx::Pick("children", 1, sx::Q(2, 3)); HyperGraph g; Sentence sw; std::vector<HyperNode *> kids, vars; HyperNode *root = new HyperNode; root->SetSym(Dict::WID(lb[sx::Pick("root label", 0, 1) * 2])); root->SetSpan(std::make_pair(0, k)); g.AddNode(root); std::vector<HyperEdge *> pre;
  std::vector<bool> isVar;
  for (int i = 0; i < k; i++) {
    HyperNode *n = new HyperNode, *t = new HyperNode; bool v = sx::Pick(nm("variable", i), 0, 1); isVar.push_back(v); n->SetSym(Dict::WID(lb[v ? i : i ? 2 : sx::Pick("label", 0, 2)])); n->SetSpan(std::make_pair(i, i + 1)); g.AddNode(n); kids.push_back(n);
    WordId w = Dict::WID(v ? "z" : wd[i ? 2 : sx::Pick("word", 0, 5)]); sw.push_back(w); t->SetSym(w); t->SetSpan(std::make_pair(i, i + 1)); g.AddNode(t); mkEdge(g, n, std::vector<HyperNode *>(1, t), 0); if (v) vars.push_back(n); else pre.push_back(n->GetEdge(0)); }
  mkEdge(g, root, kids, 0); g.SetWords(sw); int nv = vars.size();
  // the target side: every position is a word or the span of a variable
  int m = sx::Pick("target length", nv > 1 ? nv : 1, 3); Sentence tw; std::vector<int> at(m, -1); int lab = sx::Pick("labels", 0, 2); LabeledSpans labs; CfgData want; HyperNode head(root->GetSym(), -1, root->GetSpan(), 0); std::set<int> all;
  for (int v = 0; v < nv; v++) { int p = sx::Pick(nm("place", v), 0, m - 1); sx::Assume(at[p] < 0); at[p] = v; }
  HyperNode tail[3]; RuleEdge e(&head); int nwords = 0;
  for (int j = 0; j < m; j++) { all.insert(j); if (at[j] < 0) { int x = sx::Pick(nm("target word", j), 0, nwords++ ? 1 : 5); tw.push_back(Dict::WID(wd[x])); want.words.push_back(tw[j]); } else { tw.push_back(Dict::WID("q")); want.words.push_back(-1 - at[j]); } }
  for (int v = 0; v < nv; v++) { tail[v].SetSym(vars[v]->GetSym()); tail[v].SetId(v + 1); tail[v].SetSpan(vars[v]->GetSpan()); int p = std::find(at.begin(), at.end(), v) - at.begin(); std::set<int> s; s.insert(p); tail[v].SetTrgSpan(s); e.AddTail(&tail[v]); if (lab == 2) { labs[std::make_pair(p, p + 1)] = Dict::WID(lb[p]); if ((int)want.syms.size() <= v) want.syms.resize(v + 1, -1); want.syms[v] = Dict::WID(lb[p]); } }
  if (lab && !(m == 1 && nv)) { labs[std::make_pair(0, m)] = Dict::WID("@"); want.label = Dict::WID("@"); } else if (lab == 2) want.label = want.syms[0];
  if (lab == 1 && m == 1 && nv) { labs[std::make_pair(0, 1)] = Dict::WID("@"); want.label = Dict::WID("@"); want.syms = Sentence(1, want.label); }
  head.SetTrgSpan(all); e.AddFragmentEdge(root->GetEdge(0)); for (size_t i = 0; i < pre.size(); i++) e.AddFragmentEdge(pre[i]);
  ForestExtractor ex; std::string line = ex.RuleToString(e, sw, tw, Alignment(), lab ? &labs : NULL); SparseVector feat; feat.Add(Dict::WID("p"), 0.25); feat.Add(Dict::WID("w"), lab ? -1.5 : 3);
  // the field after the target side is replaced by the features, as the scoring scripts do
  size_t b = line.rfind(" ||| "); b = line.rfind(" ||| ", b - 1); line = line.substr(0, b) + " ||| " + Dict::PrintSparseVector(feat) + "\n";
  for (int t = 0; t < 2; t++) {
    std::istringstream in(line); std::unique_ptr<LookupTable> lt(t ? (LookupTable *)LookupTableMarisa::ReadFromRuleTable(in) : LookupTableHash::ReadFromRuleTable(in)); boost::shared_ptr<HyperGraph> out(lt->TransformGraph(g)); const HyperNode *r = out->GetNode(0);
    sx::Assert(r->NumEdges() == 1, "the rule matches the tree it was printed from"); const HyperEdge *x = r->GetEdge(0);
    sx::Assert(x->GetFeatures() == feat, "the features are read back"); sx::Assert(x->GetTrgData().size() == 1 && x->GetTrgData()[0] == want, "the target side and its labels are read back"); sx::Assert(x->NumTails() == nv, "the variables are read back");
    for (int v = 0; v < nv; v++) sx::Assert(x->GetTail(v)->GetSpan() == vars[v]->GetSpan() && x->GetTail(v)->GetSym() == vars[v]->GetSym(), "variables stand for the same nodes");
  }
  sx::Reach("end");
}
static void fragment(HyperNode *n, const std::set<const HyperNode *> &cut, RuleEdge &e, std::vector<HyperNode *> &vars) {
  if (n->IsTerminal()) return; if (cut.count(n)) { vars.push_back(n); return; }
  e.AddFragmentEdge(n->GetEdge(0)); BOOST_FOREACH(HyperNode *t, n->GetEdge(0)->GetTails()) fragment(t, cut, e, vars);
}
SX_HARNESS(deep) {
  int k = sx::Pick("children", 1, 2), pos = 0; HyperGraph g; Sentence sw; std::vector<HyperNode *> kids; std::set<const HyperNode *> cut; HyperNode *root = new HyperNode; root->SetSym(Dict::WID("S")); g.AddNode(root);
  for (int i = 0; i < k; i++) {
    int inner = sx::Pick(nm("inner", i), 0, 2), from = pos; HyperNode *n = new HyperNode; n->SetSym(Dict::WID(lb[sx::Pick(nm("label", i), 0, i ? 1 : 0)])); g.AddNode(n); kids.push_back(n); bool v = sx::Pick(nm("variable", i), 0, 1); if (v) cut.insert(n);
    std::vector<HyperNode *> sub; for (int j = 0; j < (inner ? inner : 1); j++) {
      HyperNode *q = n, *t = new HyperNode; if (inner) { q = new HyperNode; q->SetSym(Dict::WID(lb[j])); g.AddNode(q); q->SetSpan(std::make_pair(pos, pos + 1)); sub.push_back(q); if (!v && sx::Pick(nm("inner variable", i * 2 + j), 0, 1)) cut.insert(q); }
      WordId w = Dict::WID(wd[i ? 3 : j ? 1 : 0]); sw.push_back(w); t->SetSym(w); t->SetSpan(std::make_pair(pos, pos + 1)); g.AddNode(t); mkEdge(g, q, std::vector<HyperNode *>(1, t), 0); pos++; }
    if (inner) mkEdge(g, n, sub, 0); n->SetSpan(std::make_pair(from, pos)); }
  root->SetSpan(std::make_pair(0, pos)); mkEdge(g, root, kids, 0); g.SetWords(sw);
  HyperNode head(root->GetSym(), -1, root->GetSpan(), 0); RuleEdge e(&head); std::vector<HyperNode *> vars; fragment(root, cut, e, vars); int nv = vars.size(), word = sx::Pick("word before", 0, nv);
  std::vector<int> order; for (int v = 0; v < nv; v++) order.insert(order.begin() + sx::Pick(nm("place", v), 0, v), v);
  Sentence tw; CfgData want; std::set<int> all; HyperNode tail[4]; int place[4]; for (int j = 0; j <= nv; j++) { if (j == word) { want.words.push_back(Dict::WID("|||")); tw.push_back(want.words.back()); } if (j < nv) { place[order[j]] = tw.size(); want.words.push_back(-1 - order[j]); tw.push_back(Dict::WID("q")); } }
  for (size_t j = 0; j < tw.size(); j++) all.insert(j); head.SetTrgSpan(all);
  for (int v = 0; v < nv; v++) { tail[v].SetSym(vars[v]->GetSym()); tail[v].SetId(vars[v]->GetId()); tail[v].SetSpan(vars[v]->GetSpan()); std::set<int> s; s.insert(place[v]); tail[v].SetTrgSpan(s); e.AddTail(&tail[v]); }
  ForestExtractor ex; std::string line = ex.RuleToString(e, sw, tw, Alignment(), NULL); SparseVector feat; feat.Add(Dict::WID("p"), 0.25);
  size_t b = line.rfind(" ||| "); b = line.rfind(" ||| ", b - 1); line = line.substr(0, b) + " ||| " + Dict::PrintSparseVector(feat) + "\n";
  for (int t = 0; t < 2; t++) {
    std::istringstream in(line); std::unique_ptr<LookupTable> lt(t ? (LookupTable *)LookupTableMarisa::ReadFromRuleTable(in) : LookupTableHash::ReadFromRuleTable(in)); boost::shared_ptr<HyperGraph> out(lt->TransformGraph(g)); const HyperNode *r = out->GetNode(0);
    sx::Assert(r->NumEdges() == 1, "the rule matches the tree it was printed from"); if (r->NumEdges() != 1) return; const HyperEdge *x = r->GetEdge(0); bool same = x->NumTails() == nv;
    for (int v = 0; same && v < nv; v++) same = x->GetTail(v)->GetSpan() == vars[v]->GetSpan() && x->GetTail(v)->GetSym() == vars[v]->GetSym();
    sx::Assert(x->GetFeatures() == feat && x->GetTrgData().size() == 1 && x->GetTrgData()[0].words == want.words, "the target side and the features are read back"); sx::Assert(same, "variables stand for the same nodes");
  }
  sx::Reach(nv > 2 ? "many" : "few"); sx::Reach("end");
}
// @reach deep many
SX_HARNESS(flat) {
  int k = sx::Pick("source items", 1, 3), nv = 0, F = sx::Pick("factors", 1, 2); CfgData src; src.label = Dict::WID(sx::Pick("head", 0, 1) ? "@" : "S");
  for (int i = 0; i < k; i++) { int c = sx::Pick(nm("item", i), nv < 2 ? -1 : 0, i ? 2 : 5); if (c < 0) { src.words.push_back(-1 - nv); src.syms.push_back(Dict::WID(nv ? "|||" : "x0")); nv++; } else src.words.push_back(Dict::WID(wd[c])); }
  CfgDataVector trg; bool swap = nv == 2 && sx::Pick("swap", 0, 1); int before = sx::Pick("words before", 0, 2), after = sx::Pick("words after", 0, 1);
  for (int f = 0; f < F; f++) {
    CfgData d; d.label = Dict::WID(f ? "T" : "S"); for (int i = 0; i < before + f; i++) d.words.push_back(Dict::WID(wd[i + 1])); for (int v = 0; v < nv; v++) d.words.push_back(-1 - (swap ? 1 - v : v)); for (int i = 0; i < after; i++) d.words.push_back(Dict::WID(wd[5])); for (int v = 0; v < nv; v++) d.syms.push_back(Dict::WID(v + f ? "B:C" : "\"")); trg.push_back(d); }
  SparseVector feat; feat.Add(Dict::WID("p"), 0.25); TranslationRuleHiero rule(trg, feat, src); std::ostringstream o; rule.Print(o); o << " ||| " << Dict::PrintSparseVector(feat) << "\n";
  std::istringstream in(o.str()); bool ok; std::unique_ptr<RuleFSM> fsm; SX_NOTHROW(fsm.reset(RuleFSM::ReadFromRuleTable(in)), ok); sx::Assert(ok, "a printed rule is accepted"); if (!ok) return;
  sx::Assert(fsm->GetRules().size() == 1 && fsm->GetRules()[0].size() == 1, "one rule is read"); const TranslationRuleHiero *r = fsm->GetRules()[0][0];
  sx::Assert(r->GetSrcData() == src, "the source side is read back"); sx::Assert(r->GetTrgData() == trg, "the target side is read back"); sx::Assert(r->GetFeatures() == feat, "the features are read back");
  sx::Reach("end");
}
