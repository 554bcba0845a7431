// @sources lib/lookup-table.cc lib/lookup-table-hash.cc lib/lookup-table-marisa.cc lib/translation-rule.cc lib/hyper-graph.cc lib/dict.cc lib/util.cc lib/cfg-data.cc lib/sparse-map.cc marisa/marisa/keyset.cc marisa/marisa/trie.cc marisa/marisa/agent.cc marisa/marisa/grimoire/vector/bit-vector.cc marisa/marisa/grimoire/io/reader.cc marisa/marisa/grimoire/io/writer.cc marisa/marisa/grimoire/io/mapper.cc marisa/marisa/grimoire/trie/tail.cc marisa/marisa/grimoire/trie/louds-trie.cc
// @bounds one: every table of at most one rule of 13 patterns with one of 2 target labels and variables with one of 2 target labels, in order, swapped, dropped or without labels; every forest of a root and 3 further nodes (one of them labelled A or B) in which each node has one edge (the root one or two) to a word, to one or to two later nodes, or to a word and a node
// @bounds tables: every table of 2 (thorough 3) of 7 patterns with target labels as above, 8 forests; unknown rules everywhere or only where nothing matches, source strings kept or not, one or two target sides
// @bounds chains: chains of 1..3 phrases with equal spans and labels from {A, B} over one word, optionally with an edge that skips one, every table of up to 2 (thorough 3) of 8 patterns with target labels
// @bounds trie: as tables, read into the compressed table (shared)
// @assume phrases come before the phrases they dominate and span them; every forest node has edges or is a word; a phrase that matches no rule and has an edge with only words covers a single word
// @harness one quick=25 thorough=300
// @harness tables quick=25 thorough=400
// @harness chains quick=20 thorough=200
// @harness trie quick=15 thorough=200
// @reach one matched
// @reach one unknown
// @reach one mismatch
// @reach tables agree
#include "hg.h"
#include <travatar/lookup-table-hash.h>
#include <travatar/lookup-table-marisa.h>
#include <travatar/translation-rule.h>
#include <travatar/global-debug.h>
#include <memory>
#include "pat.h"
static const int fewPats[] = {0, 1, 2, 18, 5, 11, 8};
struct Side { std::string label; std::vector<std::string> syms; std::string text; };   // one target side of a rule
static Side side(int vars, int label, int sym, int form, const std::string &word) {
  // form 0: in order, 1: swapped, 2: the last variable dropped, 3: variables without labels
  Side s; s.label = label ? "Q" : "P"; s.syms.assign(vars, ""); s.text = "\"" + word + "\"";
  for (int k = 0; k < vars; k++) { int v = form == 1 ? vars - 1 - k : k; if (form == 2 && v == vars - 1) continue; s.text += std::string(" x") + char('0' + v); if (form != 3) { s.syms[v] = (sym ^ v) & 1 ? "Q" : "P"; s.text += ":" + s.syms[v]; } }
  s.text += " @ " + s.label; return s;
}
struct Rule { PT pat; std::string src; std::vector<Side> sides; };
template <class Table> static void run(int mode) {   // 0: one rule, all forests; 1: tables; 2: chains
  int nr = mode == 0 ? sx::Pick("rules", 0, 1) : mode == 1 ? sx::Q(2, 3) : sx::Pick("rules", 0, sx::Q(2, 3)), opt = mode == 1 ? sx::Pick("options", 0, 3) : 0; bool all = opt == 1, src = opt == 2; int cols = opt == 3 ? 2 : 1;
  std::vector<Rule> rules; std::string table;
  for (int r = 0; r < nr; r++) {
    Rule x; int p = mode == 0 ? sx::Pick(nm("rule", r), 0, 12) : mode == 1 ? fewPats[sx::Pick(nm("rule", r), 0, 6)] : chainPats[sx::Pick(nm("rule", r), 0, 7)]; x.src = pats[p]; std::vector<std::string> t = blanks(x.src); size_t i = 0; x.pat = parsePat(t, i); int vars = 0; for (size_t k = 0; k < t.size(); k++) vars += t[k][0] == 'x';
    std::string id(1, char('0' + r)); int label = sx::Pick(nm("label of rule", r), 0, 1), sym = vars ? sx::Pick(nm("variable label of rule", r), 0, 1) : 0, form = vars && mode == 0 ? sx::Pick(nm("form of rule", r), 0, 3) : 0; std::string text;
    for (int c = 0; c < cols; c++) { x.sides.push_back(side(vars, c ? 0 : label, c ? sym ^ label : sym, form, "w" + id)); text += (c ? " |COL| " : "") + x.sides[c].text; }
    table += x.src + " ||| " + text + " ||| r" + id + "=1 ||| 0-0\n"; rules.push_back(x);
  }
  GlobalVars::trg_factors = cols; HyperGraph g; std::vector<HyperNode *> ns; if (mode == 2) chain(g, ns); else { forest(g, ns, mode == 0); for (int i = nodesUsed; i-- > 0; ) { int l = 2, r = 0; BOOST_FOREACH(const HyperEdge *e, ns[i]->GetEdges()) BOOST_FOREACH(const HyperNode *t, e->GetTails()) { l = std::min(l, t->GetSpan().first); r = std::max(r, t->GetSpan().second); } ns[i]->SetSpan(std::make_pair(l, r)); } }   // a phrase spans what it dominates
  std::istringstream in(table); std::unique_ptr<LookupTable> lt(Table::ReadFromRuleTable(in)); lt->SetMatchAllUnk(all); lt->SetSaveSrcStr(src); lt->SetConsiderTrg(true);
  boost::shared_ptr<HyperGraph> out(lt->TransformGraph(g)); GlobalVars::trg_factors = 1;
  // the matches of each phrase, by target labels
  typedef std::vector<std::string> Labels; std::vector<std::map<Labels, std::vector<std::pair<int, Match> > > > by(nodesUsed); int nlab = 0;
  for (int i = 0; i < nodesUsed; i++) { for (int r = 0; r < nr; r++) { std::vector<Match> m = matches(rules[r].pat, ns[i]); Labels l; for (int c = 0; c < cols; c++) l.push_back(rules[r].sides[c].label); for (size_t k = 0; k < m.size(); k++) by[i][l].push_back(std::make_pair(r, m[k])); } nlab += by[i].size(); }
  sx::Assert(out->GetWords() == g.GetWords() && out->NumNodes() == nodesUsed + nlab, "a node for each phrase and one for each of its target labels"); if (out->NumNodes() != nodesUsed + nlab) return;
  // find the node of each label below its phrase
  std::map<const HyperNode *, std::string> name; std::vector<std::map<Labels, const HyperNode *> > ln(nodesUsed); const WordId chi = Dict::WID("\xcf\x87"), unk = Dict::WID("unk"), um = Dict::WID("unmatch_trg"); bool shape = true;
  for (int i = 0; i < nodesUsed; i++) {
    const HyperNode *n = out->GetNode(i); std::ostringstream gn; gn << i; name[n] = gn.str(); shape &= n->GetSym() == chi && n->GetSpan() == ns[i]->GetSpan() && n->GetId() == i;
    BOOST_FOREACH(const HyperEdge *e, n->GetEdges()) { bool u = false; BOOST_FOREACH(const SparsePair &f, e->GetFeatures().GetImpl()) u |= f.first == unk; if (u) continue;
      shape &= e->NumTails() == 1 && (int)e->GetTrgData().size() == cols && e->GetFeatures().GetImpl().empty(); if (e->NumTails() != 1) continue; const HyperNode *t = e->GetTail(0); for (size_t c = 0; c < e->GetTrgData().size(); c++) shape &= e->GetTrgData()[c].words == Sentence(1, -1); if (src) shape &= e->GetSrcStr() == Dict::WSym(ns[i]->GetSym()) + " ( x0:\xcf\x87 )";
      shape &= t->GetId() >= nodesUsed && out->GetNode(t->GetId()) == t && t->GetSym() == ns[i]->GetSym() && t->GetSpan() == ns[i]->GetSpan() && t->NumEdges() > 0; if (!t->NumEdges()) continue; Labels l; BOOST_FOREACH(const CfgData &d, t->GetEdge(0)->GetTrgData()) l.push_back(d.label < 0 ? "" : Dict::WSym(d.label)); shape &= !ln[i].count(l) && !name.count(t); ln[i][l] = t; std::string s = gn.str() + ":"; for (size_t c = 0; c < l.size(); c++) s += l[c]; name[t] = s; }
  }
  sx::Assert(shape, "phrases lead to the nodes of their target labels, once each, at no cost"); sx::Assert((int)name.size() == out->NumNodes(), "every label node belongs to a phrase");
  int edges = 0;
  for (int i = 0; i < nodesUsed; i++) {
    sx::Assert(ln[i].size() == by[i].size(), "one node per target label of the matching rules"); const HyperNode *n = out->GetNode(i); std::multiset<std::string> want, got; bool order = true;
    for (std::map<Labels, std::vector<std::pair<int, Match> > >::iterator l = by[i].begin(); l != by[i].end(); ++l) {
      if (!ln[i].count(l->first)) { sx::Assert(false, "every target label has a node"); continue; } const HyperNode *t = ln[i][l->first]; std::multiset<std::string> w, h;
      for (size_t k = 0; k < l->second.size(); k++) { const Rule &x = rules[l->second[k].first]; const Match &m = l->second[k].second; int pen = 0; std::ostringstream o; o << "->";
        for (size_t v = 0; v < m.vars.size(); v++) { Labels c; for (int z = 0; z < cols; z++) c.push_back(x.sides[z].syms[v]); std::map<Labels, const HyperNode *>::iterator f = ln[m.vars[v]].find(c); if (f == ln[m.vars[v]].end()) { pen++; o << m.vars[v]; } else { o << m.vars[v] << ':'; for (size_t z = 0; z < c.size(); z++) o << c[z]; sx::Reach("agree"); } o << ","; }
        for (int z = 0; z < cols; z++) o << (z ? " |COL| " : "") << x.sides[z].text; o << " "; for (int e = 0; e < 8; e++) if (m.feats >> e & 1) o << "e" << e << "=1 "; o << "r" << l->second[k].first << "=1 "; if (pen) { o << "unmatch_trg=" << pen << " "; sx::Reach("mismatch"); } if (src) o << x.src; w.insert(o.str()); }
      BOOST_FOREACH(const HyperEdge *e, t->GetEdges()) { edges++; std::ostringstream o; o << "->"; BOOST_FOREACH(const HyperNode *c, e->GetTails()) { order &= out->GetNode(c->GetId()) == c; o << name[c] << ","; } o << Dict::PrintAnnotatedVector(e->GetTrgData()) << " "; std::set<std::string> f; BOOST_FOREACH(const SparsePair &p, e->GetFeatures().GetImpl()) { std::ostringstream z; z << Dict::WSym(p.first) << "=" << p.second; f.insert(z.str()); } BOOST_FOREACH(const std::string &z, f) o << z << " "; if (src) o << e->GetSrcStr(); h.insert(o.str()); order &= e->GetHead() == t && out->GetEdge(e->GetId()) == e; }
      sx::Assert(w == h, "each label node has exactly the rules with its labels, once per match, over the nodes that agree with them or else over the phrases themselves at a cost"); sx::Reach("matched");
    }
    (void)um; edges += by[i].size();
    if (by[i].empty() || all) BOOST_FOREACH(const HyperEdge *e, ns[i]->GetEdges()) {
      edges++; if (by[i].empty()) sx::Reach("unknown"); std::ostringstream o, s, t; int v = 0; o << "->"; s << Dict::WSym(ns[i]->GetSym()) << " ("; BOOST_FOREACH(const HyperNode *x, e->GetTails()) if (x->GetId() < nodesUsed) { o << x->GetId() << ","; if (v) t << " "; t << "x" << v; s << " x" << v << ":" << Dict::WSym(x->GetSym()); v++; }
      if (!v) { t << "\"" << Dict::WSym(g.GetWord(wordAt[i])) << "\""; s << " \"" << Dict::WSym(g.GetWord(wordAt[i])) << "\""; } s << " )"; o << t.str(); for (int c = 1; c < cols; c++) o << " |COL| " << t.str(); o << " e" << e->GetId() << " unk "; if (src) o << s.str(); want.insert(o.str()); }
    BOOST_FOREACH(const HyperEdge *e, n->GetEdges()) { order &= e->GetHead() == n && out->GetEdge(e->GetId()) == e; bool u = false; BOOST_FOREACH(const SparsePair &f, e->GetFeatures().GetImpl()) u |= f.first == unk; if (u) got.insert(edgeKey(e, src)); }
    sx::Assert(order, "edges and nodes are listed in the result"); sx::Assert(want == got, "the unknown rules are those of the phrases that match nothing, or of all");
  }
  sx::Assert(edges == out->NumEdges(), "no further edges"); sx::Reach("end");
}
SX_HARNESS(one) { run<LookupTableHash>(0); }
SX_HARNESS(tables) { run<LookupTableHash>(1); }
SX_HARNESS(chains) { run<LookupTableHash>(2); }
SX_HARNESS(trie) { run<LookupTableMarisa>(1); }
