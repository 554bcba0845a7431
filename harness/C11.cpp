// @sources lib/lookup-table-fsm.cc lib/rule-fsm.cc lib/translation-rule-hiero.cc lib/translation-rule.cc lib/hyper-graph.cc lib/dict.cc lib/util.cc lib/cfg-data.cc lib/sparse-map.cc lib/input-file-stream.cc marisa/marisa/keyset.cc marisa/marisa/trie.cc marisa/marisa/agent.cc marisa/marisa/grimoire/vector/bit-vector.cc marisa/marisa/grimoire/io/reader.cc marisa/marisa/grimoire/io/writer.cc marisa/marisa/grimoire/io/mapper.cc marisa/marisa/grimoire/trie/tail.cc marisa/marisa/grimoire/trie/louds-trie.cc
// @bounds chart: every grammar of the two glue rules and up to 2 (thorough 3) of 14 further rules (words, variables, unary rules, three variables, differing source and target labels), every sentence of up to 3 words from {a, b, unknown}, span limits 1..4, unknown words kept or deleted
// @bounds longer: every grammar of the glue rules and one (thorough two) further rules, every sentence of 4 words, or of 5 from {a, unknown}
// @bounds unary: every acyclic set of unary rules over 3 labels, a word rule for one of them and one to the start symbol, a rule with two variables, sentences of 1..2 words
// @bounds cycles: every set of unary rules over 3 labels (a self loop, two- and three-step cycles included)
// @bounds bad: every rule line with up to two source and two target items, words or variables x0..x1 with or without label (a target that only drops the first variable is not judged)
// @bounds twogrammars: one (thorough two) further rules in the first grammar and the glue rules in a second one, each with a span limit of 1..4, sentences of 1..3 words, with and without a symbol for unknown words
// @assume one grammar, or a second one whose labels the first does not use; sentences of the words of one line
// @harness chart quick=20 thorough=300
// @bounds factors: as chart with two target factors whose labels differ, up to two further rules, sentences of 1..3 words
// @bounds noglue: one rule to the start symbol (with a differing second target label) and up to two of the 14 further rules, no glue rules, one or two target factors, sentences of 1..3 words, span limit 2 or 3
// @harness factors quick=20 thorough=200
// @harness longer quick=12 thorough=200
// @harness twogrammars quick=15 thorough=100
// @harness noglue quick=15 thorough=30
// @harness unary quick=10 thorough=30
// @harness cycles quick=5 thorough=10
// @harness bad quick=5 thorough=10
#include "hg.h"
#include <travatar/lookup-table-fsm.h>
#include <travatar/translation-rule-hiero.h>
#include <travatar/global-debug.h>
#include <memory>
struct Sym { bool nt; std::string a, b; };                    // word, or source and target label
struct Rl { std::vector<Sym> src; std::string a, b; int id; };
static const char *menu[] = {"\"a\" @ X ||| \"k\" @ X", "\"b\" @ X ||| \"k\" @ Y", "\"a\" @ Y ||| \"k\" @ Y", "\"b\" @ Y ||| \"k\" @ Y", "\"a\" \"b\" @ Y ||| \"k\" @ Y", "x0:X \"b\" @ X ||| x0:X @ X", "\"a\" x0:X @ X ||| x0:X @ X", "x0:X x1:X @ X ||| x1:X x0:X @ X", "x0:Y @ X ||| x0:Y @ X", "x0:X x1:Y @ S ||| x1:Y x0:X @ S", "x0:X \"b\" x1:X @ Y ||| x0:X x1:X @ Y", "x0:X @ Y ||| x0:Y @ Y", "x0:X @ Z ||| x0:X @ Z", "x0:Z x1:X x2:Z @ S ||| x2:Z x1:X x0:Z @ S", "x0:X @ S ||| x0:X @ S", "x0:S x1:X @ S ||| x0:S x1:X @ S",
  "x0:A @ B ||| x0:A @ B", "x0:A @ C ||| x0:A @ C", "x0:B @ A ||| x0:B @ A", "x0:B @ C ||| x0:B @ C", "x0:C @ A ||| x0:C @ A", "x0:C @ B ||| x0:C @ B", "\"a\" @ A ||| \"k\" @ A", "\"a\" @ B ||| \"k\" @ B", "\"a\" @ C ||| \"k\" @ C", "x0:A @ S ||| x0:A @ S", "x0:B @ S ||| x0:B @ S", "x0:C @ S ||| x0:C @ S", "x0:A x1:C @ S ||| x1:C x0:A @ S"};
static const int GLUE = 14;
// with two target factors, the second column has labels of its own (X and Y exchanged in some rules)
static int cols = 1;
static std::string second(int id, int pos, const std::string &l) {   // pos 0: the head, 1..: the variables
  static const char m[] = {1, 1, 0, 0, 1, 0, 2, 4, 0, 3, 2, 0, 0, 4, 0, 0}; return !(id < 16 && m[id] >> pos & 1) ? l : l == "S" ? "Q" : l == "X" ? "Y" : l == "Y" ? "X" : l; }
static std::string two(const std::string &l) { return cols == 2 ? l + "|" + l : l; }
static std::string line(int id) {
  std::string s(menu[id]); if (cols == 1) return s; std::string r = s + " |COL|", w; std::istringstream is(s.substr(s.find("|||") + 3)); bool head = false;
  while (is >> w) { if (head) w = second(id, 0, w); else if (w == "@") head = true; else if (w[0] == 'x') w = w.substr(0, 3) + second(id, 1 + w[1] - '0', w.substr(3)); else w = "\"l\""; r += " " + w; } return r;
}
static Rl parse(int id) {
  Rl r; r.id = id; std::string s(menu[id]), w; std::istringstream is(s); bool head = false, trg = false; std::map<int, std::string> labs;
  while (is >> w) { if (w == "|||") { trg = true; head = false; } else if (w == "@") head = true; else if (head) (trg ? r.b : r.a) = w; else if (w[0] == 'x') { if (trg) labs[w[1] - '0'] = w.substr(3); else { Sym y; y.nt = true; y.a = w.substr(3); r.src.push_back(y); } } else if (!trg) { Sym y; y.nt = false; y.a = w.substr(1, w.size() - 2); r.src.push_back(y); } }
  int v = 0; for (size_t i = 0; i < r.src.size(); i++) if (r.src[i].nt) { r.src[i].b = labs[v++]; if (cols == 2) r.src[i].b += "|" + second(id, v, r.src[i].b); } if (cols == 2) r.b += "|" + second(id, 0, r.b); return r;
}
typedef std::pair<std::pair<int, int>, std::pair<std::string, std::string> > Item;
struct Ed { int rule; Item head; std::vector<std::pair<int, int> > spans; bool operator==(const Ed &o) const { return !(*this < o) && !(o < *this); } bool operator<(const Ed &o) const { return rule != o.rule ? rule < o.rule : head != o.head ? head < o.head : spans < o.spans; } };
static Item item(int i, int j, const std::string &a, const std::string &b) { return std::make_pair(std::make_pair(i, j), std::make_pair(a, b)); }
static void fire(const Rl &r, size_t k, int start, int pos, const std::vector<std::string> &w, int lim, const std::set<Item> &have, std::vector<std::pair<int, int> > &sp, std::vector<Ed> &out) {
  if (k == r.src.size()) { Ed e; e.rule = r.id; e.head = item(start, pos, r.a, r.b); e.spans = sp; out.push_back(e); return; }
  if (!r.src[k].nt) { if (pos < (int)w.size() && w[pos] == r.src[k].a) fire(r, k + 1, start, pos + 1, w, lim, have, sp, out); return; }
  for (int q = pos + 1; q <= (int)w.size() && q - pos <= lim; q++) if (have.count(item(pos, q, r.src[k].a, r.src[k].b))) { sp.push_back(std::make_pair(pos, q)); fire(r, k + 1, start, q, w, lim, have, sp, out); sp.pop_back(); }
}
static void run(const std::vector<int> &ids, const std::vector<std::string> &w, int lim, bool del, int glueLim = 0, bool unk = true) {
  std::string text, text2; std::vector<Rl> g; for (size_t i = 0; i < ids.size(); i++) { g.push_back(parse(ids[i])); char b[32]; sprintf(b, " ||| r%d=1\n", ids[i]); std::string &t = glueLim && ids[i] >= GLUE ? text2 : text; t += line(ids[i]); t += b; }
  int n = w.size();
  // an exhaustive chart: apply every rule everywhere until nothing is new
  std::set<Item> have; std::set<Ed> edges; if (unk) for (int i = 0; i < n; i++) have.insert(item(i, i + 1, "X", two("X")));
  for (bool more = true; more;) { more = false; for (size_t k = 0; k < g.size(); k++) for (int i = 0; i < n; i++) { std::vector<Ed> out; std::vector<std::pair<int, int> > sp; fire(g[k], 0, i, i, w, glueLim && g[k].id >= GLUE ? glueLim : lim, have, sp, out); for (size_t e = 0; e < out.size(); e++) if (edges.insert(out[e]).second) { more = true; have.insert(out[e].head); } } }
  std::set<Item> headed; for (std::set<Ed>::iterator it = edges.begin(); it != edges.end(); ++it) headed.insert(it->head);
  if (unk) for (int i = 0; i < n; i++) if (!headed.count(item(i, i + 1, "X", two("X")))) { Ed e; e.rule = -1; e.head = item(i, i + 1, "X", two("X")); edges.insert(e); headed.insert(e.head); }
  Item root = item(0, n, "S", two("S")); std::set<Item> reach; std::vector<Item> todo; std::set<Ed> want; if (headed.count(root)) { todo.push_back(root); reach.insert(root); }
  while (todo.size()) { Item x = todo.back(); todo.pop_back(); for (std::set<Ed>::iterator it = edges.begin(); it != edges.end(); ++it) if (it->head == x) { want.insert(*it); if (it->rule < 0) continue; const Rl *r = NULL; for (size_t k = 0; k < g.size(); k++) if (g[k].id == it->rule) r = &g[k]; int v = 0; for (size_t k = 0; k < r->src.size(); k++) if (r->src[k].nt) { Item c = item(it->spans[v].first, it->spans[v].second, r->src[k].a, r->src[k].b); v++; if (reach.insert(c).second) todo.push_back(c); } } }
  // the real code
  std::istringstream in(text); bool ok; RuleFSM *fsm = NULL; SX_NOTHROW(fsm = RuleFSM::ReadFromRuleTable(in), ok);
  sx::Assert(ok, "an acyclic grammar is accepted"); if (!ok) return;
  LookupTableFSM lt; lt.AddRuleFSM(fsm); std::vector<int> lims(1, lim); if (glueLim) { std::istringstream in2(text2); lt.AddRuleFSM(RuleFSM::ReadFromRuleTable(in2)); lims.push_back(glueLim); } lt.SetSpanLimits(lims); lt.SetTrgFactors(cols); lt.SetRootSymbol(Dict::WID("S")); lt.SetUnkSymbol(Dict::WID(unk ? "X" : "")); lt.SetDeleteUnknown(del);
  HyperGraph inG; Sentence sw; for (int i = 0; i < n; i++) sw.push_back(Dict::WID(w[i])); inG.SetWords(sw); std::unique_ptr<HyperGraph> out(lt.TransformGraph(inG));
  if (want.empty()) { sx::Assert(out->NumNodes() == 0 && out->NumEdges() == 0, "without a parse the forest is empty"); sx::Reach("none"); sx::Reach("end"); return; }
  sx::Assert(out->GetWords() == sw, "the words are kept"); sx::Assert(out->NumNodes() == (int)reach.size(), "each reachable node is there once"); sx::Assert(out->NumEdges() == (int)want.size(), "number of rule applications");
  std::map<const HyperNode *, Item> who; std::set<Item> names; bool fine = true; int listed = 0;
  for (int i = 0; i < out->NumNodes(); i++) { const HyperNode *x = out->GetNode(i); fine &= x->GetId() == i && x->NumEdges() > 0; if (!x->NumEdges()) continue; const CfgDataVector &td = x->GetEdge(0)->GetTrgData(); fine &= (int)td.size() == cols; if ((int)td.size() != cols) continue; Item it = item(x->GetSpan().first, x->GetSpan().second, Dict::WSym(x->GetSym()), Dict::WSym(td[0].label) + (cols == 2 ? "|" + Dict::WSym(td[1].label) : std::string())); who[x] = it; fine &= names.insert(it).second; listed += x->NumEdges(); }
  sx::Assert(fine && names == reach, "nodes have their numbers, and are the reachable ones"); sx::Assert(who[out->GetNode(0)] == root, "the root is the start symbol over the sentence"); sx::Assert(listed == out->NumEdges(), "every edge is listed under a node");
  std::set<Ed> got; bool tails = true, feats = true;
  for (int i = 0; i < out->NumEdges(); i++) { const HyperEdge *x = out->GetEdge(i); Ed e; e.rule = -1; e.head = who[x->GetHead()]; for (size_t k = 0; k < ids.size(); k++) { char b[16]; sprintf(b, "r%d", ids[k]); SparseVector f; f.Add(Dict::WID(b), 1); if (x->GetFeatures() == f) e.rule = ids[k]; }
    for (int t = 0; t < x->NumTails(); t++) e.spans.push_back(x->GetTail(t)->GetSpan());
    if (e.rule < 0) { SparseVector f; f.Add(Dict::WID("unk"), 1); feats &= x->GetFeatures() == f && (int)x->GetTrgData().size() == cols; for (size_t c = 0; c < x->GetTrgData().size(); c++) feats &= x->GetTrgData()[c].words == Sentence(1, del ? Dict::WID("") : sw[x->GetHead()->GetSpan().first]); }
    else { Rl r = parse(e.rule); int v = 0; for (size_t k = 0; k < r.src.size(); k++) if (r.src[k].nt) { tails &= v < x->NumTails() && who.count(x->GetTail(v)) && who[x->GetTail(v)].second == std::make_pair(r.src[k].a, r.src[k].b); v++; } tails &= v == x->NumTails(); }
    got.insert(e); }
  sx::Assert(feats, "unknown words get an unknown rule"); sx::Assert(tails, "tails are the nodes of the variables in source order"); sx::Assert(got == want, "exactly the licensed rule applications"); sx::Reach("end");
}
static void sentAndRun(int extra, int minLen, int maxLen, int lims) {
  std::vector<int> ids; int last = -1; for (int i = 0; i < extra; i++) { int r = sx::Pick(nm("rule", i), last + 1, GLUE); if (r >= GLUE) break; ids.push_back(r); last = r; }
  ids.push_back(GLUE); ids.push_back(GLUE + 1); int n = sx::Pick("length", minLen, maxLen); std::vector<std::string> w; const char *voc[] = {"a", "?", "b"}; for (int i = 0; i < n; i++) w.push_back(voc[sx::Pick(nm("word", i), 0, n > 4 ? 1 : 2)]);
  int lim = sx::Pick("limit", 0, lims); static const int ls[] = {4, 1, 2, 3}; run(ids, w, ls[lim], lim == 1);
}
SX_HARNESS(chart) { sentAndRun(sx::Q(2, 3), 0, 3, 2); }
SX_HARNESS(factors) { cols = GlobalVars::trg_factors = 2; sentAndRun(2, 1, 3, sx::Q(0, 2)); }
SX_HARNESS(longer) { sentAndRun(sx::Q(1, 2), 4, 5, sx::Q(0, 3)); }
// no glue rules: the start symbol comes from one rule only, with a second target label that may differ from it
SX_HARNESS(noglue) {
  cols = GlobalVars::trg_factors = 1 + sx::Pick("second factor", 0, 1); std::vector<int> ids; int last = -1; for (int i = 0; i < 2; i++) { int r = sx::Pick(nm("rule", i), last + 1, GLUE); if (r >= GLUE) break; ids.push_back(r); last = r; }
  if (std::find(ids.begin(), ids.end(), 9) == ids.end()) ids.push_back(9); int n = sx::Pick("length", 1, 3); std::vector<std::string> w; const char *voc[] = {"a", "b", "?"}; for (int i = 0; i < n; i++) w.push_back(voc[sx::Pick(nm("word", i), 0, n == 3 ? 1 : 2)]); run(ids, w, sx::Pick("limit", 2, 3), false);
}
// the glue rules in a grammar of their own, listed second, with a span limit of its own
SX_HARNESS(twogrammars) {
  std::vector<int> ids; int last = -1; for (int i = 0; i < sx::Q(1, 2); i++) { int r = sx::Pick(nm("rule", i), last + 1, GLUE); if (r >= GLUE) break; ids.push_back(r); last = r; }
  if (ids.empty()) ids.push_back(0); ids.push_back(GLUE); ids.push_back(GLUE + 1); int n = sx::Pick("length", 1, 3); std::vector<std::string> w; const char *voc[] = {"a", "b", "?"}; for (int i = 0; i < n; i++) w.push_back(voc[sx::Pick(nm("word", i), 0, 2)]);
  int l1 = sx::Pick("limit", 1, 3), l2 = sx::Pick("limit of the glue grammar", 1, 4); run(ids, w, l1, false, l2, sx::Pick("unknown symbol given", 0, 1));
}
SX_HARNESS(unary) {
  std::vector<int> ids; for (int i = 0; i < 6; i++) if (sx::Pick(nm("unary rule", i), 0, 1)) ids.push_back(16 + i);
  bool r[3][3] = {}; static const int f[] = {0, 0, 1, 1, 2, 2}, t[] = {1, 2, 0, 2, 0, 1}; for (size_t i = 0; i < ids.size(); i++) r[f[ids[i] - 16]][t[ids[i] - 16]] = true; for (int k = 0; k < 3; k++) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r[i][j] |= r[i][k] && r[k][j]; sx::Assume(!r[0][0] && !r[1][1] && !r[2][2]);
  ids.push_back(22 + sx::Pick("word rule", 0, 2)); ids.push_back(25 + sx::Pick("start rule", 0, 2)); ids.push_back(28); int n = sx::Pick("length", 1, 2); if (sx::Pick("rules listed in reverse", 0, 1)) std::reverse(ids.begin(), ids.end()); run(ids, std::vector<std::string>(n, "a"), 4, false);
}
SX_HARNESS(cycles) {
  std::string text; bool e[3][3]; const char *lb = "ABC"; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { e[i][j] = sx::Pick(nm("unary", i, j), 0, 1); if (e[i][j]) text += std::string("x0:") + lb[j] + " @ " + lb[i] + " ||| x0:" + lb[j] + " @ " + lb[i] + " ||| p=1\n"; }
  bool r[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r[i][j] = e[i][j]; for (int k = 0; k < 3; k++) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r[i][j] |= r[i][k] && r[k][j]; bool cyc = r[0][0] || r[1][1] || r[2][2];
  text += "x0:A x1:A @ A ||| x0:A x1:A @ A ||| p=1\n"; std::istringstream in(text); bool ok; std::unique_ptr<RuleFSM> f; SX_NOTHROW(f.reset(RuleFSM::ReadFromRuleTable(in)), ok); sx::Assert(ok == !cyc, "unary cycles are rejected, other grammars accepted"); sx::Reach("end");
}
SX_HARNESS(bad) {
  static const char *it[] = {"", "\"w\"", "x0:A", "x1:A", "x0", "x1"}; int s0 = sx::Pick("source 1", 0, 5), s1 = sx::Pick("source 2", 0, 5), t0 = sx::Pick("target 1", 0, 3), t1 = sx::Pick("target 2", 0, 3); sx::Assume(s0 || !s1); sx::Assume(t0 || !t1);
  std::string line = std::string(it[s0]) + (s1 ? " " : "") + it[s1] + " @ A ||| " + it[t0] + (t1 ? " " : "") + it[t1] + " @ A ||| p=1\n"; std::istringstream in(line); bool ok; std::unique_ptr<RuleFSM> f; SX_NOTHROW(f.reset(RuleFSM::ReadFromRuleTable(in)), ok);
  // well formed: variables labelled and used in order on the source, the same ones on the target
  std::vector<int> sv, tv; bool good = s0 != 0; int ss[] = {s0, s1}, tt[] = {t0, t1}; for (int i = 0; i < 2; i++) { if (ss[i] >= 4) good = false; if (ss[i] >= 2) sv.push_back((ss[i] - 2) % 2); if (tt[i] >= 2) tv.push_back(tt[i] - 2); }
  for (size_t i = 0; i < sv.size(); i++) good &= sv[i] == (int)i; std::set<int> a(sv.begin(), sv.end()), b(tv.begin(), tv.end()); bool drop = good && a != b && b.size() && *b.rbegin() + 1 == (int)a.size(); good &= a == b; bool unary = good && s0 == 2 && !s1;
  if (good && !unary) sx::Assert(ok, "a well formed rule is accepted"); if (!good && !drop) sx::Assert(!ok, "a malformed rule is rejected"); if (ok) sx::Reach("accepted"); sx::Reach("end");
}
