// @sources lib/lookup-table.cc lib/lookup-table-hash.cc lib/lookup-table-marisa.cc lib/translation-rule.cc lib/hyper-graph.cc lib/dict.cc lib/util.cc lib/cfg-data.cc lib/sparse-map.cc marisa/marisa/keyset.cc marisa/marisa/trie.cc marisa/marisa/agent.cc marisa/marisa/grimoire/vector/bit-vector.cc marisa/marisa/grimoire/io/reader.cc marisa/marisa/grimoire/io/writer.cc marisa/marisa/grimoire/io/mapper.cc marisa/marisa/grimoire/trie/tail.cc marisa/marisa/grimoire/trie/louds-trie.cc
// @bounds forestshash, foreststrie: every table of at most one rule (thorough: two) of 13 patterns, every forest of a root and 3 further nodes (the second labelled A or B) in which each node has one edge (the root one or two) to a word, to one or to two later nodes, or to a word and a node
// @bounds tableshash, tablestrie: every table of up to 2 (thorough 3) rules of the 13 patterns (with repetitions, in every order), 24 forests with one or two root edges; unknown rules everywhere or only where nothing matches, source strings kept or not
// @bounds chainshash, chainstrie: chains of 1..3 phrases with equal spans and labels from {A, B} over one word, optionally with an edge that skips one, every table of up to 2 (thorough 3) of 8 patterns
// @bounds bad: every table line of up to 3 fields separated by bars
// @assume every forest node has edges or is a word; a node that matches no rule and dominates only words covers a single word
// @harness forestshash quick=20 thorough=300
// @harness foreststrie quick=20 thorough=300
// @harness tableshash quick=20 thorough=200
// @harness tablestrie quick=20 thorough=200
// @harness chainshash quick=10 thorough=100
// @harness chainstrie quick=10 thorough=100
// @bounds fanhash, fantrie: a phrase with 1..6 edges to phrases of different labels inside a larger one, every subset of 7 rules that match through it
// @harness fanhash quick=10 thorough=60
// @harness fantrie quick=10 thorough=60
// @harness bad quick=5 thorough=10
#include "hg.h"
#include <travatar/lookup-table-hash.h>
#include <travatar/lookup-table-marisa.h>
#include <travatar/translation-rule.h>
#include <memory>
#include "pat.h"
// a phrase with up to six edges to phrases of different labels
static void fan(HyperGraph &g, std::vector<HyperNode *> &ns) {
  int k = sx::Pick("edges", 1, 6); bool rev = sx::Pick("reversed", 0, 1); Sentence w; w.push_back(Dict::WID("a")); w.push_back(Dict::WID("b")); g.SetWords(w); nodesUsed = 3 + k; std::vector<int> word;
  for (int i = 0; i < nodesUsed; i++) { HyperNode *n = new HyperNode; n->SetSym(Dict::WID(i == 0 ? std::string("A") : i == 1 ? std::string("B") : i == 2 ? std::string("C") : std::string("D") + char('0' + i - 3))); n->SetSpan(i == 0 ? std::make_pair(0, 2) : i == 2 ? std::make_pair(1, 2) : std::make_pair(0, 1)); g.AddNode(n); ns.push_back(n); wordAt[i] = i == 2; }
  HyperNode *wn[2]; for (int i = 0; i < 2; i++) { wn[i] = new HyperNode; wn[i]->SetSym(w[i]); wn[i]->SetSpan(std::make_pair(i, i + 1)); g.AddNode(wn[i]); }
  std::vector<HyperNode *> t; t.push_back(ns[1]); t.push_back(ns[2]); mkEdge(g, ns[0], t, 0); for (int i = 0; i < k; i++) mkEdge(g, ns[1], std::vector<HyperNode *>(1, ns[3 + (rev ? k - 1 - i : i)]), 0);
  mkEdge(g, ns[2], std::vector<HyperNode *>(1, wn[1]), 0); for (int i = 0; i < k; i++) mkEdge(g, ns[3 + i], std::vector<HyperNode *>(1, wn[0]), 0);
  BOOST_FOREACH(HyperEdge *e, g.GetEdges()) { std::ostringstream o; o << "e" << e->GetId(); e->GetFeatures().Add(Dict::WID(o.str()), 1); }
}
template <class Table> static void run(bool full, bool chains = false, bool many = false) {
  int NR = sx::Q(2, 3) - full, nr = many ? 0 : sx::Pick("rules", 0, NR); std::vector<PT> rp; std::vector<std::string> rs; std::string table;
  if (many) { int mask = sx::Pick("rules", 0, 127); static const char *e[] = {"x0:D0", "x0:D1", "x0:D2", "x0:D3", "x0:D4", "x0:D5"}; for (int i = 0; i < 7; i++) if (mask >> i & 1) { rs.push_back(i < 6 ? std::string("A ( B ( ") + e[i] + " ) x1:C )" : std::string("A ( B ( D1 ( \"a\" ) ) x0:C )")); nr++; } }
  for (int r = 0; r < nr; r++) { if (!many) rs.push_back(pats[chains ? chainPats[sx::Pick(nm("rule", r), 0, 7)] : sx::Pick(nm("rule", r), 0, 12)]); size_t i = 0; std::vector<std::string> t = blanks(rs[r]); rp.push_back(parsePat(t, i)); std::string id(1, char('0' + r)); table += rs[r] + " ||| \"w" + id + "\" x0 @ L" + id + " ||| r" + id + "=1 ||| 0-0\n"; }
  HyperGraph g; std::vector<HyperNode *> ns; if (many) fan(g, ns); else if (chains) chain(g, ns); else forest(g, ns, full); int opt = full || many ? 0 : sx::Pick("options", 0, 2); bool all = opt == 1, src = opt == 2;
  std::istringstream in(table); std::unique_ptr<LookupTable> lt(Table::ReadFromRuleTable(in)); lt->SetMatchAllUnk(all); lt->SetSaveSrcStr(src);
  boost::shared_ptr<HyperGraph> out(lt->TransformGraph(g)); sx::Assert(out->GetWords() == g.GetWords() && out->NumNodes() == nodesUsed, "one node per phrase of the forest, same words");
  for (int i = 0; i < nodesUsed; i++) {
    const HyperNode *n = out->GetNode(i); sx::Assert(n->GetSym() == ns[i]->GetSym() && n->GetSpan() == ns[i]->GetSpan() && n->GetId() == i, "nodes keep label, span and order");
    std::multiset<std::string> want, got; bool any = false;
    for (int r = 0; r < nr; r++) { std::vector<Match> m = matches(rp[r], ns[i]); for (size_t k = 0; k < m.size(); k++) { any = true; std::string id(1, char('0' + r)); std::ostringstream o; o << "->" << m[k].str() << "\"w" << id << "\" x0 @ L" << id << " "; std::set<std::string> fs; for (int e = 0; e < 16; e++) if (m[k].feats >> e & 1) { std::ostringstream f; f << "e" << e; fs.insert(f.str()); } BOOST_FOREACH(const std::string &f, fs) o << f << " "; o << "r" << id << " "; if (src) o << rs[r]; want.insert(o.str()); } }
    if (any) sx::Reach("matched"); else sx::Reach("unknown");
    if (!any || all) BOOST_FOREACH(const HyperEdge *e, ns[i]->GetEdges()) {
      std::ostringstream o, s, t; int v = 0; o << "->"; s << Dict::WSym(ns[i]->GetSym()) << " ("; BOOST_FOREACH(const HyperNode *x, e->GetTails()) if (x->GetId() < nodesUsed) { o << x->GetId() << ","; if (v) t << " "; t << "x" << v; s << " x" << v << ":" << Dict::WSym(x->GetSym()); v++; }
      if (!v) { t << "\"" << Dict::WSym(g.GetWord(wordAt[i])) << "\""; s << " \"" << Dict::WSym(g.GetWord(wordAt[i])) << "\""; } s << " )"; o << t.str() << " e" << e->GetId() << " unk "; if (src) o << s.str(); want.insert(o.str()); }
    BOOST_FOREACH(const HyperEdge *e, n->GetEdges()) { sx::Assert(e->GetHead() == n && out->GetEdge(e->GetId()) == e, "edges are listed under their head"); BOOST_FOREACH(const HyperNode *t, e->GetTails()) sx::Assert(out->GetNode(t->GetId()) == t, "tails are nodes of the result"); got.insert(edgeKey(e, src)); }
    sx::Assert(want == got, "each node has exactly the rules matching there, once per match, or the unknown rule");
  }
  sx::Reach("end");
}
SX_HARNESS(forestshash) { run<LookupTableHash>(true); }
SX_HARNESS(foreststrie) { run<LookupTableMarisa>(true); }
SX_HARNESS(tableshash) { run<LookupTableHash>(false); }
SX_HARNESS(tablestrie) { run<LookupTableMarisa>(false); }
SX_HARNESS(chainshash) { run<LookupTableHash>(false, true); }
SX_HARNESS(chainstrie) { run<LookupTableMarisa>(false, true); }
SX_HARNESS(fanhash) { run<LookupTableHash>(false, false, true); }
SX_HARNESS(fantrie) { run<LookupTableMarisa>(false, false, true); }
SX_HARNESS(bad) {
  static const char *f[] = {"A ( \"a\" )", "\"w\"", "f=1", "", "w", "f"}; int n = sx::Pick("fields", 1, 4); std::string line; int k[4]; for (int i = 0; i < n; i++) { k[i] = sx::Pick(nm("field", i), 0, 5); if (i) line += " ||| "; line += f[k[i]]; }
  bool good = n >= 3 && (k[1] == 1 || k[1] == 3) && (k[2] == 2 || k[2] == 3), ok; std::unique_ptr<LookupTable> t; std::istringstream in(line + "\n"), in2(line + "\n");
  SX_NOTHROW(t.reset(LookupTableHash::ReadFromRuleTable(in)), ok); sx::Assert(ok == good, "lines with too few fields or bad fields are rejected"); SX_NOTHROW(t.reset(LookupTableMarisa::ReadFromRuleTable(in2)), ok); sx::Assert(ok == good, "lines with too few fields or bad fields are rejected (compressed table)");
  sx::Reach("end");
}
