// @sources kenlm/lm/model.cc kenlm/lm/search_hashed.cc kenlm/lm/search_trie.cc kenlm/lm/trie.cc kenlm/lm/trie_sort.cc kenlm/lm/bhiksha.cc kenlm/lm/binary_format.cc kenlm/lm/config.cc kenlm/lm/lm_exception.cc kenlm/lm/quantize.cc kenlm/lm/read_arpa.cc kenlm/lm/value_build.cc kenlm/lm/virtual_interface.cc kenlm/lm/vocab.cc kenlm/util/bit_packing.cc kenlm/util/ersatz_progress.cc kenlm/util/exception.cc kenlm/util/file.cc kenlm/util/file_piece.cc kenlm/util/mmap.cc kenlm/util/murmur_hash.cc kenlm/util/parallel_read.cc kenlm/util/pool.cc kenlm/util/read_compressed.cc kenlm/util/scoped.cc kenlm/util/string_piece.cc kenlm/util/double-conversion/double-conversion.cc kenlm/util/double-conversion/strtod.cc kenlm/util/double-conversion/bignum.cc kenlm/util/double-conversion/cached-powers.cc kenlm/util/double-conversion/diy-fp.cc kenlm/util/double-conversion/fast-dtoa.cc kenlm/util/double-conversion/fixed-dtoa.cc kenlm/util/double-conversion/bignum-dtoa.cc lib/lm-func.cc lib/lm-composer.cc lib/word-splitter.cc lib/word-splitter-regex.cc lib/word-splitter-compound.cc lib/graph-transformer.cc lib/hyper-graph.cc lib/dict.cc lib/util.cc lib/cfg-data.cc lib/sparse-map.cc lib/sentence.cc lib/global-debug.cc
// @bounds regex: every word of 1..5 (thorough 7) characters, each a letter, a hyphen or a slash, four delimiter expressions that match no empty string, no padding or "@" as padding
// @bounds forest: every forest over 1..2 (thorough 3) words out of 6 (split into 1..4 pieces or kept), for every word a preterminal with one edge to the word, or a second edge to another preterminal, directly or over the same label, or a second edge to the word itself; one or two edges at the root; symbolic edge scores in [-8,8]; nodes listed from either end
// @bounds compound: one word of 4 letters, with every subset of 5 of its parts in the vocabulary and three possible log probabilities for each part and the word, minimum length 1..2, three lists of fillers, three thresholds
// @assume every word of the forest is below a preterminal edge with no other tail
// @harness regex quick=20 thorough=200
// @harness forest quick=20 thorough=300
// @harness compound quick=40 thorough=300
#include "lm.h"
#include "hg.h"
#include <travatar/word-splitter-regex.h>
#include <travatar/word-splitter-compound.h>
typedef std::vector<std::string> Pieces;
static bool isDelim(int e, char c) { return e == 0 ? c == '-' : e == 1 ? c == '-' : e == 2 ? (c == '-' || c == '/') : c == 'a'; }
SX_HARNESS(regex) {
  static const char *expr[] = {"-", "(\\-+)", "(-|/)", "a+"};
  int e = sx::Pick("expression", 0, 3); bool runs = e == 1 || e == 3;
  WordSplitterRegex sp(expr[e]); std::string pad = sx::Pick("pad", 0, 1) ? "@" : "";
  int n = sx::Pick("length", 1, sx::Q(5, 7)); std::string w;
  for (int i = 0; i < n; i++) { static const char cs[] = "ab-/"; char c = (char)sx::Int(nm("char", i), '-', 'z'); bool in = c == cs[0]; for (int k = 1; k < 4; k++) in = sx::Or(in, c == cs[k]); sx::Assume(in); w += c; }
  Pieces got = sp.StringSplit(w, pad), exp;
  for (int i = 0; i < n;) {
    int j = i + 1; bool d = isDelim(e, w[i]);
    while (j < n && isDelim(e, w[j]) == d && (!d || runs)) j++;
    exp.push_back(d ? pad + w.substr(i, j - i) + pad : w.substr(i, j - i)); i = j;
  }
  sx::Assert(got == exp, "a word is split at each delimiter, which is kept");
  if (pad.empty()) { std::string all; for (size_t i = 0; i < got.size(); i++) all += got[i]; sx::Assert(all == w, "splitting keeps the characters"); }
  sx::Reach("end");
}
static std::string two(const char *a, int i) { return std::string(a) + char('0' + i); }
static std::vector<int> shape(const HyperGraph &g) {
  std::vector<int> v = g.GetWords(); v.push_back(g.NumEdges());
  for (int i = 0; i < g.NumNodes(); i++) { const HyperNode *n = g.GetNode(i); v.push_back(n->GetSym()); v.push_back(n->GetSpan().first); v.push_back(n->GetSpan().second); for (int k = 0; k < n->NumEdges(); k++) { v.push_back(-1 - n->GetEdge(k)->GetId()); for (int t = 0; t < n->GetEdge(k)->NumTails(); t++) v.push_back(n->GetEdge(k)->GetTail(t)->GetId()); } }
  return v;
}
SX_HARNESS(forest) {
  static const char *word[] = {"a", "b-c", "-", "-d", "e--f", "-LRB-"};
  static const int pieces[] = {1, 3, 1, 2, 4, 1};
  static const char *part[][4] = {{"a"}, {"b", "-", "c"}, {"-"}, {"-", "d"}, {"e", "-", "-", "f"}, {"-LRB-"}};
  int n = sx::Pick("words", 1, sx::Q(2, 3)); bool rev = sx::Pick("terminals first", 0, 1);
  HyperGraph g; std::vector<HyperNode *> pre, alt, term, all; HyperNode *root = new HyperNode(Dict::WID("S"), -1, std::make_pair(0, n));
  all.push_back(root); Sentence ws, nws; std::vector<int> first; int at = 0, kind[3];
  for (int i = 0; i < n; i++) {
    int w = sx::Pick(nm("word", i), 0, 5); kind[i] = sx::Pick(nm("kind", i), 0, 3);
    ws.push_back(Dict::WID(word[w])); first.push_back(at); for (int k = 0; k < pieces[w]; k++) nws.push_back(Dict::WID(part[w][k])); at += pieces[w];
    pre.push_back(new HyperNode(Dict::WID("P"), Dict::WID("Q"), std::make_pair(i, i + 1)));
    alt.push_back(kind[i] == 1 || kind[i] == 2 ? new HyperNode(Dict::WID(kind[i] == 1 ? "R" : "P"), Dict::WID("Q"), std::make_pair(i, i + 1)) : NULL);
    term.push_back(new HyperNode(ws[i], -1, std::make_pair(i, i + 1)));
    all.push_back(pre[i]); if (alt[i]) all.push_back(alt[i]); all.push_back(term[i]);
  }
  first.push_back(at); g.SetWords(ws);
  if (rev) { std::reverse(all.begin() + 1, all.end()); }
  for (size_t i = 0; i < all.size(); i++) g.AddNode(all[i]);
  int ne = 0;
  #define SC sx::Fix(nm("score", ne++), -8, 8, 2)
  for (int k = 0; k < (sx::Pick("root edges", 1, 2)); k++) { std::vector<HyperNode *> t; for (int i = 0; i < n; i++) t.push_back(k && alt[i] ? alt[i] : pre[i]); mkEdge(g, root, t, SC)->GetFeatures().Add(1, 1 + k); }
  for (int i = 0; i < n; i++) {
    std::vector<HyperNode *> t(1, term[i]), a(1, alt[i]);
    if (alt[i] && kind[i] == 1) mkEdge(g, pre[i], a, SC);
    mkEdge(g, pre[i], t, SC);
    if (alt[i]) { if (kind[i] == 2) mkEdge(g, pre[i], a, SC); mkEdge(g, alt[i], t, SC); }
    if (kind[i] == 3) mkEdge(g, pre[i], t, SC);
  }
  std::vector<int> before = shape(g); WordSplitterRegex sp; boost::shared_ptr<HyperGraph> r(sp.TransformGraph(g));
  sx::Assert(shape(g) == before, "the input forest is left alone");
  sx::Assert(r->GetWords() == nws, "the words are the pieces in order");
  bool ok = r->NumNodes() >= g.NumNodes() && r->NumEdges() >= g.NumEdges(), sc = true, ends = true; std::map<int, bool> seen;
  for (int i = 0; ok && i < r->NumNodes(); i++) ok = r->GetNode(i)->GetId() == i;
  for (int i = 0; ok && i < r->NumEdges(); i++) ok = r->GetEdge(i)->GetId() == i;
  for (int i = 0; ok && i < g.NumNodes(); i++) {
    const HyperNode *x = g.GetNode(i), *y = r->GetNode(i); std::pair<int, int> s = x->GetSpan();
    ok = y->GetSym() == x->GetSym() && y->GetTrgSym() == x->GetTrgSym() && y->GetSpan() == std::make_pair(first[s.first], first[s.second]) && y->NumEdges() == x->NumEdges();
    for (int k = 0; ok && k < x->NumEdges(); k++) {
      const HyperEdge *e = x->GetEdge(k), *f = y->GetEdge(k);
      ok = f->GetId() == e->GetId() && f->GetHead() == y && r->GetEdge(f->GetId()) == f; sc = sx::And(sc, f->GetScore() == e->GetScore()); ok = ok && f->GetFeatures() == e->GetFeatures();
      int len = first[s.second] - first[s.first];
      if (e->NumTails() == 1 && e->GetTail(0)->IsTerminal() && len > 1) {
        ends = ends && f->NumTails() == len;
        for (int p = 0; ends && p < len; p++) {
          const HyperNode *t = f->GetTail(p), *u = t->NumEdges() == 1 && t->GetEdge(0)->NumTails() == 1 ? t->GetEdge(0)->GetTail(0) : NULL; std::pair<int, int> at(first[s.first] + p, first[s.first] + p + 1);
          ends = u && t->GetSym() == x->GetSym() && t->GetTrgSym() == x->GetTrgSym() && t->GetSpan() == at && u->GetSpan() == at && u->GetSym() == nws[at.first] && u->IsTerminal() && r->GetNode(t->GetId()) == t && r->GetNode(u->GetId()) == u && t->GetEdge(0)->GetHead() == t && r->GetEdge(t->GetEdge(0)->GetId()) == t->GetEdge(0);
        }
        sx::Reach("split");
      } else { ok = ok && f->NumTails() == e->NumTails(); for (int p = 0; ok && p < e->NumTails(); p++) ok = f->GetTail(p) == r->GetNode(e->GetTail(p)->GetId()); }
    }
  }
  sx::Assert(ok, "the other nodes, edges and labels are kept and the spans refined");
  sx::Assert(sc, "the edges keep their scores");
  sx::Assert(ends, "the preterminals of a split word have a preterminal of the same label for each piece");
  sx::Reach("end");
}
// @reach forest split
SX_HARNESS(compound) {
  static const char *parts[] = {"xyzw", "x", "xy", "xyz", "yzw", "zw", "w"};   // the word and its parts
  static const char *fillers[] = {"", "z", "yz:z"};
  int in[7]; double lp[7]; std::string arpa; int num = 3, min = sx::Pick("minimum", 1, 2);
  for (int i = 0; i < 7; i++) { in[i] = (i == 2 && !sx::Tier()) || (i == 6 && !sx::Tier()) ? 1 : sx::Pick(nm("listed", i), 0, 1); lp[i] = in[i] ? -(i > 3 && !sx::Tier() ? 1.0 + i % 3 : (double)sx::Pick(nm("score", i), 1, 3)) : 0; num += in[i]; }
  char b[200]; snprintf(b, 200, "\\data\\\nngram 1=%d\nngram 2=1\n\n\\1-grams:\n-5\t<unk>\t0\n-99\t<s>\t-1\n-1\t</s>\n", num); arpa = b;
  for (int i = 0; i < 7; i++) if (in[i]) { snprintf(b, 200, "%.1f\t%s\t-0.5\n", lp[i], parts[i]); arpa += b; }
  arpa += "\n\\2-grams:\n-0.25\t<s> </s>\n\n\\end\\\n";
  MemFile f; f.put(arpa);
  int fi = sx::Pick("fillers", 0, 2), th = sx::Pick("threshold", 0, 2); static const double thr[] = {0.05, 0.005, 1};
  WordSplitterCompound sp(f.name, min, thr[th], fillers[fi]);
  const WordSplitter &ws = sp; Pieces got = ws.StringSplit(parts[0]), exp(1, parts[0]);
  double own = in[0] ? lp[0] : -99, best = own; std::map<std::string, double> v; for (int i = 0; i < 7; i++) if (in[i]) v[parts[i]] = lp[i];
  Pieces fl; if (fi == 1) fl.push_back("z"); if (fi == 2) { fl.push_back("yz"); fl.push_back("z"); } fl.push_back("");
  std::string w = parts[0];
  if ((int)w.size() > 2 * min && (own < std::log10(thr[th]) || !in[0]))
    for (int i = min; i <= (int)w.size() - min; i++) for (size_t k = 0; k < fl.size(); k++) {
      std::string l = w.substr(0, i); if (w.substr(i, fl[k].size()) != fl[k]) continue;
      std::string r = w.substr(i + fl[k].size()); if (!v.count(l) || !v.count(r)) continue;
      double m = (v[l] + v[r]) / 2; if (m > best) { best = m; exp.clear(); exp.push_back(l); exp.push_back(r); }
    }
  sx::Assert(got == exp, "a word is split into the listed parts with the best mean when that beats the word");
  if (got.size() == 2) sx::Reach("split");
  sx::Reach("end");
}
// @reach compound split
