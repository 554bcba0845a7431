// @sources lib/lookup-table-cfglm.cc lib/lookup-table-fsm.cc lib/lm-func.cc lib/lm-composer.cc lib/rule-fsm.cc lib/translation-rule-hiero.cc lib/translation-rule.cc lib/hyper-graph.cc lib/weights.cc lib/dict.cc lib/util.cc lib/cfg-data.cc lib/sparse-map.cc lib/input-file-stream.cc marisa/marisa/agent.cc marisa/marisa/keyset.cc marisa/marisa/trie.cc marisa/marisa/grimoire/trie/louds-trie.cc marisa/marisa/grimoire/trie/tail.cc marisa/marisa/grimoire/io/mapper.cc marisa/marisa/grimoire/vector/bit-vector.cc kenlm/lm/binary_format.cc kenlm/lm/config.cc kenlm/lm/model.cc kenlm/lm/virtual_interface.cc kenlm/lm/vocab.cc kenlm/lm/bhiksha.cc kenlm/lm/lm_exception.cc kenlm/lm/quantize.cc kenlm/lm/read_arpa.cc kenlm/lm/search_hashed.cc kenlm/lm/search_trie.cc kenlm/lm/trie.cc kenlm/lm/trie_sort.cc kenlm/lm/value_build.cc kenlm/util/file.cc kenlm/util/mmap.cc kenlm/util/pool.cc kenlm/util/exception.cc kenlm/util/file_piece.cc kenlm/util/murmur_hash.cc kenlm/util/parallel_read.cc kenlm/util/scoped.cc kenlm/util/bit_packing.cc kenlm/util/ersatz_progress.cc kenlm/util/read_compressed.cc kenlm/util/double-conversion/double-conversion.cc kenlm/util/double-conversion/strtod.cc kenlm/util/double-conversion/bignum.cc kenlm/util/double-conversion/cached-powers.cc kenlm/util/double-conversion/diy-fp.cc
// @bounds chart: every grammar of a start rule, a rule for the word a, possibly one for b, and up to 3 (thorough 4) of 11 further rules (words, several translations of a word, variables, reordering, unary rules and chains of them), every sentence of 1..3 words from {a, b}, with one of 2 (thorough 24) trigram models or none
// @bounds limited: the same with one further rule fewer, pop limits of 1..3 and chart limits of none, 1 and 2
// @assume one grammar and one model (as the runner enforces); every rule of the grammar has target words or variables, and every variable once
// @harness chart quick=40 thorough=400
// @bounds longer: the same with up to two (thorough three) further rules and sentences of 4 words
// @harness longer quick=20 thorough=300
// @bounds labels: grammars with two translations of the word a under different target labels and up to 3 (thorough 4) of six rules over both, sentences of 1..3 (thorough 4) words
// @harness labels quick=20 thorough=200
// @reach labels parsed
// @reach labels none
// @harness limited quick=20 thorough=200
// @reach chart parsed
// @reach chart none
#include "lm.h"
#include "hg.h"
#include "models.h"
#include <travatar/lookup-table-cfglm.h>
#include <travatar/translation-rule-hiero.h>
#include <travatar/weights.h>
#include <travatar/global-debug.h>
#include <memory>
static const char *menu[] = {"\"a\" @ X ||| \"a\" @ X", "\"a\" @ X ||| \"b\" \"a\" \"b\" @ X", "\"b\" @ X ||| \"b\" @ X", "x0:X x1:X @ X ||| x1:X x0:X @ X", "\"b\" @ Y ||| \"zz\" @ Y", "x0:Y @ X ||| x0:Y \"b\" @ X", "\"a\" x0:X @ X ||| x0:X \"a\" \"b\" @ X",
  "x0:X @ Z ||| \"a\" x0:X @ Z", "x0:Z @ S ||| x0:Z @ S", "x0:S x1:X @ S ||| x0:S x1:X @ S", "x0:X \"b\" x1:X @ S ||| x1:X \"a\" x0:X @ S", "\"a\" @ Y ||| \"a\" \"b\" \"a\" @ Y", "\"a\" \"b\" @ Y ||| \"b\" @ Y", "x0:X @ S ||| x0:X @ S",
  "\"a\" @ X ||| \"b\" @ W", "x0:X @ S ||| x0:W \"a\" @ S", "x0:X x1:X @ S ||| x1:W x0:X @ S", "\"b\" x0:X @ X ||| \"a\" x0:W @ W", "x0:X @ X ||| x0:W @ X", "x0:X \"a\" @ X ||| \"b\" x0:X @ W", "\"a\" @ X ||| \"a\" @ W"};
static const int START = 13, LABELS = 15, END = 21;
struct Rl { std::vector<std::string> src, trg, kid; std::string head; int id; }; // labels are source/target pairs
static Rl parse(int id) { Rl r; r.id = id; std::istringstream is(menu[id]); std::string w; bool h = false, t = false; while (is >> w) { if (w == "|||") { t = true; h = false; } else if (w == "@") h = true; else if (h) r.head = t ? r.head + "/" + w : w; else (t ? r.trg : r.src).push_back(w[0] == '"' ? w.substr(1, w.size() - 2) : w); }
  for (size_t k = 0; k < r.src.size(); k++) if (r.src[k].size() > 2 && r.src[k][2] == ':') for (size_t j = 0; j < r.trg.size(); j++) if (r.trg[j].size() > 2 && r.trg[j].substr(0, 3) == r.src[k].substr(0, 3)) r.kid.push_back(r.src[k].substr(3) + "/" + r.trg[j].substr(3));
  return r; }
static bool var(const std::string &s) { return s.size() > 2 && s[0] == 'x' && s[2] == ':'; }
struct Dv { std::string tree; std::vector<int> words; };
static std::vector<Rl> gram; static std::vector<std::string> sent;
static std::vector<Dv> derive(const std::string &lab, int i, int j);
// all ways to read source items k.. over [i, j) with the children so far
static void spread(const Rl &r, size_t k, int i, int j, std::vector<Dv> &kids, std::vector<Dv> &out) {
  if (k == r.src.size()) {
    if (i != j) return; char b[16]; sprintf(b, "(%d", r.id); Dv d; d.tree = b; for (size_t c = 0; c < kids.size(); c++) d.tree += kids[c].tree; d.tree += ")";
    for (size_t t = 0; t < r.trg.size(); t++) if (var(r.trg[t])) { const std::vector<int> &w = kids[r.trg[t][1] - '0'].words; d.words.insert(d.words.end(), w.begin(), w.end()); } else d.words.push_back(Dict::WID(r.trg[t])); out.push_back(d); return; }
  if (!var(r.src[k])) { if (i < j && sent[i] == r.src[k]) spread(r, k + 1, i + 1, j, kids, out); return; }
  bool last = k + 1 == r.src.size(); for (int m = last ? j : i + 1; m <= j - (int)(r.src.size() - k - 1) && m > i; m++) { std::vector<Dv> c = derive(r.kid[kids.size()], i, m); for (size_t x = 0; x < c.size(); x++) { kids.push_back(c[x]); spread(r, k + 1, m, j, kids, out); kids.pop_back(); } }
}
static std::vector<Dv> derive(const std::string &lab, int i, int j) { std::vector<Dv> out; for (size_t g = 0; g < gram.size(); g++) if (gram[g].head == lab) { std::vector<Dv> kids; spread(gram[g], 0, i, j, kids, out); } return out; }
static double feat(const HyperEdge *e, WordId w) { double s = 0; BOOST_FOREACH(const SparsePair &p, e->GetFeatures().GetImpl()) if (p.first == w) s += p.second; return s; }
struct Gv { std::string tree; std::vector<int> words; double lm, unk; };
static std::vector<Gv> read(const HyperNode *n, int depth) {
  std::vector<Gv> ret; sx::Assert(depth < 12, "the forest has no cycles");
  BOOST_FOREACH(const HyperEdge *e, n->GetEdges()) {
    int id = -1; for (size_t g = 0; g < gram.size(); g++) { char b[16]; sprintf(b, "r%d", gram[g].id); if (feat(e, Dict::WID(b)) == 1) { sx::Assert(id < 0, "an edge has the features of one rule"); id = gram[g].id; } }
    std::vector<std::vector<Gv> > part(1);
    BOOST_FOREACH(const HyperNode *t, e->GetTails()) { std::vector<Gv> c = read(t, depth + 1); std::vector<std::vector<Gv> > np; for (size_t a = 0; a < part.size(); a++) for (size_t b = 0; b < c.size(); b++) { np.push_back(part[a]); np.back().push_back(c[b]); } part.swap(np); }
    for (size_t a = 0; a < part.size(); a++) {
      Gv d; char b[16]; sprintf(b, "(%d", id); d.tree = b; d.lm = feat(e, Dict::WID("lm")); d.unk = feat(e, Dict::WID("lmunk")); for (size_t k = 0; k < part[a].size(); k++) { d.tree += part[a][k].tree; d.lm += part[a][k].lm; d.unk += part[a][k].unk; } d.tree += ")";
      if (e->GetTrgData().size() == 1) BOOST_FOREACH(int w, e->GetTrgData()[0].words) { if (w >= 0) d.words.push_back(w); else { sx::Assert(-1 - w < (int)part[a].size(), "variables have tails"); const std::vector<int> &c = part[a][-1 - w].words; d.words.insert(d.words.end(), c.begin(), c.end()); } }
      ret.push_back(d);
    }
  }
  return ret;
}
static void run(int extra, bool limited, int minw = 1, int maxw = 3, bool labels = false) {
  std::vector<int> ids; int last = 0; ids.push_back(0); if (sx::Pick("a rule for b", 0, 1)) ids.push_back(2); if (labels) { ids.push_back(14); last = LABELS - 1; } const int stop = labels ? END : START;
  for (int k = 0; k < extra; k++) { int r = sx::Pick(nm("rule", k), last + 1, stop); sx::Assume(r != 2); if (r >= stop) break; if (r != 2) ids.push_back(r); last = r; }
  ids.push_back(START); std::string text; gram.clear(); for (size_t k = 0; k < ids.size(); k++) { gram.push_back(parse(ids[k])); char b[32]; sprintf(b, " ||| r%d=1\n", ids[k]); text += std::string(menu[ids[k]]) + b; }
  int n = sx::Pick("words", minw, maxw), model = sx::Pick("model", sx::Q(1, 0), sx::Q(2, 24)); sent.clear(); Sentence sw; for (int i = 0; i < n; i++) { sent.push_back(sx::Pick(nm("word", i), 0, 1) ? "b" : "a"); sw.push_back(Dict::WID(sent[i])); }
  if (limited && !sx::Tier()) sx::Assume(model == 2);
  std::istringstream in(text); LookupTableCFGLM lt; Weights ws; lt.SetWeights(ws); lt.AddRuleFSM(RuleFSM::ReadFromRuleTable(in)); lt.SetTrgFactors(1); lt.SetRootSymbol(Dict::WID("S"));
  Arpa m; bool lm = !(model == 1 && !sx::Tier()) && model < 24; MemFile f; if (lm) { m = modelOf(model == 2 ? 15 : MODELS[model]); f.put(m.text()); lt.LoadLM(f.name); }
  int pop = 0, cl = 0; if (limited) { pop = sx::Pick("pop limit", 1, 3); cl = sx::Pick("chart limit", 0, 2); lt.SetPopLimit(pop); lt.SetChartLimit(cl ? cl : -1); }
  HyperGraph g; g.SetWords(sw); std::unique_ptr<HyperGraph> out(lt.TransformGraph(g)); std::vector<Dv> want = derive("S/S", 0, n);
  if (want.empty()) { sx::Assert(out->NumNodes() == 0 && out->NumEdges() == 0, "without a derivation the forest is empty"); sx::Reach("none"); sx::Reach("end"); return; }
  if (limited && out->NumNodes() == 0) { sx::Reach("lost"); sx::Reach("end"); return; }
  sx::Assert(out->NumNodes() > 0 && out->GetWords() == sw, "the words are kept"); if (!out->NumNodes()) return; sx::Reach("parsed");
  int listed = 0; for (int i = 0; i < out->NumNodes(); i++) { const HyperNode *x = out->GetNode(i); sx::Assert(x->GetId() == i, "nodes have their position as identifier"); listed += x->NumEdges(); BOOST_FOREACH(const HyperEdge *e, x->GetEdges()) sx::Assert(e->GetHead() == x && out->GetEdge(e->GetId()) == e, "edges are listed under their head"); } sx::Assert(listed == out->NumEdges(), "every edge is listed under a node");
  if (limited) { std::map<std::pair<int, int>, std::pair<int, int> > per; for (int i = 1; i < out->NumNodes(); i++) { per[out->GetNode(i)->GetSpan()].first++; per[out->GetNode(i)->GetSpan()].second += out->GetNode(i)->NumEdges(); } bool in = true; for (std::map<std::pair<int, int>, std::pair<int, int> >::iterator i = per.begin(); i != per.end(); ++i) in = in && i->second.second <= pop && (!cl || i->second.first <= cl); sx::Assert(in, "a span has no more nodes and edges than the limits allow"); }
  sx::Assert(out->GetNode(0)->GetSpan() == std::make_pair(0, n), "the root comes first and spans the sentence");
  std::vector<Gv> got = read(out->GetNode(0), 0); std::multiset<std::string> wt, gt; std::map<std::string, std::vector<int> > words; for (size_t k = 0; k < want.size(); k++) { std::string t = "(-1" + want[k].tree + ")"; wt.insert(t); words[t] = want[k].words; }
  bool right = true; for (size_t k = 0; k < got.size(); k++) {
    gt.insert(got[k].tree); sx::Assert(wt.count(got[k].tree) > 0 && words[got[k].tree] == got[k].words, "every derivation is one of the grammar, with its translation");
    int u = 0; double l = lm ? ref(m, got[k].words, u) : 0; if (!lm) u = 0; right = right && fabs(got[k].lm - l) < 1e-4 && got[k].unk == u; }
  sx::Assert(right, "the language model features are those of the translation with its boundaries");
  if (!limited) sx::Assert(gt == wt, "every derivation of the grammar occurs once"); else { bool once = true; for (std::multiset<std::string>::iterator i = gt.begin(); i != gt.end(); ++i) once = once && gt.count(*i) == 1; sx::Assert(once && !gt.empty(), "no derivation occurs twice"); }
  sx::Reach("end");
}
SX_HARNESS(chart) { run(sx::Q(3, 4), false); }
SX_HARNESS(longer) { run(sx::Q(2, 3), false, 4, 4); }
SX_HARNESS(labels) { run(sx::Q(3, 4), false, 1, sx::Q(3, 4), true); }
SX_HARNESS(limited) { run(sx::Q(2, 3), true); }
