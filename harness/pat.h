// source patterns, forests they are matched against, and an independent matcher (shared by C10 and C45)
struct Pat { const char *s; };
static const char *pats[] = {"A ( \"a\" )", "B ( \"b\" )", "S ( x0:A x1:B )", "S ( A ( \"a\" ) x0:B )", "S ( x0:A B ( \"b\" ) )", "A ( x0:B )", "S ( x0:A )", "S ( A ( x0:B ) )", "S ( A ( x0:B ) x1:B )", "A ( \"a\" x0:B )", "S ( x0:A x1:A )", "A ( x0:B x1:B )", "S ( x0:B )", "A ( x0:A )", "B ( x0:A )", "B ( x0:B )", "A ( A ( x0:A ) )", "A ( A ( \"a\" ) )", "B ( \"a\" )", "B ( A ( x0:B ) )"};
static const int chainPats[] = {0, 13, 5, 14, 16, 17, 18, 19};
static int nodesUsed = 4, wordAt[16] = {0, 1, 0, 1};
// pattern trees, parsed here from the blank-separated source side
struct PT { int kind; std::string lab; std::vector<PT> kids; };   // 0 node, 1 word, 2 variable
static PT parsePat(const std::vector<std::string> &t, size_t &i) {
  PT p; if (t[i][0] == '"') { p.kind = 1; p.lab = t[i].substr(1, t[i].size() - 2); i++; return p; }
  if (t[i][0] == 'x') { p.kind = 2; p.lab = t[i].substr(3); i++; return p; }
  p.kind = 0; p.lab = t[i]; i += 2; while (t[i] != ")") p.kids.push_back(parsePat(t, i)); i++; return p;
}
static std::vector<std::string> blanks(const std::string &s) { std::vector<std::string> r; std::istringstream is(s); std::string w; while (is >> w) r.push_back(w); return r; }
struct Match { std::vector<int> vars; int feats; std::string str() const { std::string s; for (size_t i = 0; i < vars.size(); i++) { s += char('0' + vars[i]); s += ','; } return s; } };
// all ways of matching pattern p at node n; feats is a bit set of the forest edges used
static std::vector<Match> matches(const PT &p, const HyperNode *n) {
  std::vector<Match> r; bool term = n->GetEdges().size() == 0; if (Dict::WSym(n->GetSym()) != p.lab) return r;
  if (p.kind == 1) { if (term) { Match m; m.feats = 0; r.push_back(m); } return r; }
  if (term) return r;
  if (p.kind == 2) { Match m; m.feats = 0; m.vars.push_back(n->GetId()); r.push_back(m); return r; }
  BOOST_FOREACH(const HyperEdge *e, n->GetEdges()) if (e->NumTails() == (int)p.kids.size()) {
    std::vector<Match> part(1); part[0].feats = 1 << e->GetId();
    for (size_t k = 0; k < p.kids.size(); k++) { std::vector<Match> np, c = matches(p.kids[k], e->GetTail(k)); for (size_t a = 0; a < part.size(); a++) for (size_t b = 0; b < c.size(); b++) { Match m = part[a]; m.vars.insert(m.vars.end(), c[b].vars.begin(), c[b].vars.end()); m.feats |= c[b].feats; np.push_back(m); } part.swap(np); }
    r.insert(r.end(), part.begin(), part.end());
  }
  return r;
}
static void forest(HyperGraph &g, std::vector<HyperNode *> &ns, bool full) {
  Sentence w; w.push_back(Dict::WID("a")); w.push_back(Dict::WID("b")); g.SetWords(w);
  for (int i = 0; i < 4; i++) { HyperNode *n = new HyperNode; n->SetSym(Dict::WID(i == 0 ? "S" : i == 1 ? "A" : i == 3 ? "B" : sx::Pick(nm("label", i), 0, 1) ? "A" : "B")); n->SetSpan(std::make_pair(i & 1, (i & 1) + 1)); g.AddNode(n); ns.push_back(n); }
  HyperNode *word[2]; for (int i = 0; i < 2; i++) { word[i] = new HyperNode; word[i]->SetSym(w[i]); word[i]->SetSpan(std::make_pair(i, i + 1)); g.AddNode(word[i]); }
  for (int i = 0; i < 4; i++) {
    int ne = i == 0 ? sx::Pick("edges", 1, 2) : 1;
    for (int e = 0; e < ne; e++) {
      std::vector<HyperNode *> t; int later = 3 - i, k;
      // 0: word; then one later node; then ordered pairs of different later nodes; then word and node
      if (!full) k = i == 0 ? (e ? 2 : 4 + 2 * sx::Pick("pair", 0, 1)) : i == 1 ? sx::Pick("tails of node 1", 0, 2) : 0;
      else if (i == 0) k = sx::Pick(nm("tails", e), 1, e ? 4 : 9); else k = sx::Pick(nm("tails of node", i), 0, later == 0 ? 0 : later == 1 ? 2 : 4);
      if (k == 0) t.push_back(word[i & 1]);
      else if (i == 0) { static const int pr[9][2] = {{1, -1}, {2, -1}, {3, -1}, {1, 2}, {1, 3}, {2, 3}, {2, 1}, {3, 2}, {3, 1}}; t.push_back(ns[pr[k - 1][0]]); if (pr[k - 1][1] >= 0) t.push_back(ns[pr[k - 1][1]]); }
      else if (k <= later) t.push_back(ns[i + k]);
      else if (k == later + 1) { t.push_back(word[0]); t.push_back(ns[i + 1]); }
      else { t.push_back(ns[i + 1]); t.push_back(ns[i + 2]); }
      mkEdge(g, ns[i], t, 0);
    }
  }
  BOOST_FOREACH(HyperEdge *e, g.GetEdges()) e->GetFeatures().Add(Dict::WID(std::string("e") + char('0' + e->GetId())), 1);
}
static std::string edgeKey(const HyperEdge *e, bool src) {
  std::ostringstream o; o << "->"; BOOST_FOREACH(const HyperNode *t, e->GetTails()) o << t->GetId() << ","; o << Dict::PrintAnnotatedVector(e->GetTrgData()) << " "; std::set<std::string> f; BOOST_FOREACH(const SparsePair &p, e->GetFeatures().GetImpl()) f.insert(Dict::WSym(p.first)); BOOST_FOREACH(const std::string &s, f) o << s << " "; if (src) o << e->GetSrcStr(); return o.str();
}
static void chain(HyperGraph &g, std::vector<HyperNode *> &ns) {
  g.SetWords(Sentence(1, Dict::WID("a"))); nodesUsed = sx::Pick("phrases", 1, 3); for (int i = 0; i < 4; i++) wordAt[i] = 0;
  for (int i = 0; i < nodesUsed; i++) { HyperNode *n = new HyperNode; n->SetSym(Dict::WID(sx::Pick(nm("label", i), 0, 1) ? "A" : "B")); n->SetSpan(std::make_pair(0, 1)); g.AddNode(n); ns.push_back(n); }
  HyperNode *w = new HyperNode; w->SetSym(Dict::WID("a")); w->SetSpan(std::make_pair(0, 1)); g.AddNode(w);
  for (int i = 0; i < nodesUsed; i++) { mkEdge(g, ns[i], std::vector<HyperNode *>(1, i + 1 < nodesUsed ? ns[i + 1] : w), 0); if (i == 0 && nodesUsed > 1 && sx::Pick("skip", 0, 1)) mkEdge(g, ns[0], std::vector<HyperNode *>(1, nodesUsed > 2 ? ns[2] : w), 0); }
  BOOST_FOREACH(HyperEdge *e, g.GetEdges()) e->GetFeatures().Add(Dict::WID(std::string("e") + char('0' + e->GetId())), 1);
}
