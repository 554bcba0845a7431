// @sources kenlm/lm/model.cc kenlm/lm/search_hashed.cc kenlm/lm/search_trie.cc kenlm/lm/trie.cc kenlm/lm/trie_sort.cc kenlm/lm/bhiksha.cc kenlm/lm/binary_format.cc kenlm/lm/config.cc kenlm/lm/lm_exception.cc kenlm/lm/quantize.cc kenlm/lm/read_arpa.cc kenlm/lm/value_build.cc kenlm/lm/virtual_interface.cc kenlm/lm/vocab.cc kenlm/util/bit_packing.cc kenlm/util/ersatz_progress.cc kenlm/util/exception.cc kenlm/util/file.cc kenlm/util/file_piece.cc kenlm/util/mmap.cc kenlm/util/murmur_hash.cc kenlm/util/parallel_read.cc kenlm/util/pool.cc kenlm/util/read_compressed.cc kenlm/util/scoped.cc kenlm/util/string_piece.cc kenlm/util/double-conversion/double-conversion.cc kenlm/util/double-conversion/strtod.cc kenlm/util/double-conversion/bignum.cc kenlm/util/double-conversion/cached-powers.cc kenlm/util/double-conversion/diy-fp.cc kenlm/util/double-conversion/fast-dtoa.cc kenlm/util/double-conversion/fixed-dtoa.cc kenlm/util/double-conversion/bignum-dtoa.cc lib/lm-composer.cc lib/lm-composer-bu.cc lib/lm-composer-incremental.cc lib/lm-func.cc lib/graph-transformer.cc lib/hyper-graph.cc lib/rule-edge.cc lib/dict.cc lib/util.cc lib/cfg-data.cc lib/sparse-map.cc lib/sentence.cc lib/global-debug.cc kenlm/search/edge_generator.cc kenlm/search/nbest.cc kenlm/search/rule.cc kenlm/search/vertex.cc
// @bounds cube: 6 (thorough 24) trigram models in 3 (6) data structures; a root with two edges over up to three children in any order of the target side (4, thorough 8, templates with and without words of its own, among them cyclic orders of three), each child with one or two edges of 0..3 words (4, thorough 7, word strings, some unknown to the model), symbolic edge scores in [-8,8] in steps of 1/2 on two (thorough three) edges; pop limit beyond the number of combinations
// @bounds limited: the same forests with pop limits of 1..2 (thorough 3) and chart limits of 0..1 (2)
// @bounds incremental: the same forests without empty strings, searched incrementally with a pop limit beyond the number of combinations and with a limit of 1
// @bounds two: two models of different orders on the same or different factors of the target side, given as parameter strings, with their own feature names
// @harness cube quick=40 thorough=400
// @harness limited quick=20 thorough=300
// @harness incremental quick=40 thorough=400
// @harness two quick=15 thorough=200
// @assume composition without limits; every variable of a rule occurs exactly once on its target side; rules of the incremental search have target words or variables; the LM weight of the incremental search is not zero
#include "lm.h"
#include "hg.h"
#include <travatar/lm-composer-bu.h>
#include <travatar/lm-composer-incremental.h>
#include <travatar/global-debug.h>
static const double TOL = 1.0 / 8192;
static bool about(double a, double b) { double d = a - b; return sx::And(d < TOL, d > -TOL); }
struct DV { std::vector<int> rules; double score; std::vector<std::vector<int> > words; double lm[4]; };   // rules: which rules, how often
static const int NR = 12; static WordId rf[NR], lmf[4];
static std::vector<DV> derivs(const HyperNode *n, int factors) {
  std::vector<DV> ret;
  BOOST_FOREACH(const HyperEdge *e, n->GetEdges()) {
    DV d; d.rules.assign(NR, 0); d.score = e->GetScore(); for (int i = 0; i < 4; i++) d.lm[i] = 0;
    for (SparseVector::SparseVectorImpl::const_iterator it = e->GetFeatures().begin(); it != e->GetFeatures().end(); ++it) { for (int i = 0; i < NR; i++) if (rf[i] == it->first) d.rules[i]++; for (int i = 0; i < 4; i++) if (lmf[i] == it->first) d.lm[i] += it->second; }
    std::vector<DV> part(1, d); std::vector<std::vector<std::vector<std::vector<int> > > > cw(1);
    BOOST_FOREACH(const HyperNode *t, e->GetTails()) { std::vector<DV> ch = derivs(t, factors), np; std::vector<std::vector<std::vector<std::vector<int> > > > ncw;
      for (size_t a = 0; a < part.size(); a++) for (size_t b = 0; b < ch.size(); b++) { DV x = part[a]; for (int i = 0; i < NR; i++) x.rules[i] += ch[b].rules[i]; for (int i = 0; i < 4; i++) x.lm[i] += ch[b].lm[i]; x.score += ch[b].score; np.push_back(x); ncw.push_back(cw[a]); ncw.back().push_back(ch[b].words); } part.swap(np); cw.swap(ncw); }
    for (size_t a = 0; a < part.size(); a++) { part[a].words.resize(factors); for (int f = 0; f < factors; f++) BOOST_FOREACH(int w, e->GetTrgData()[f].words) { if (w >= 0) part[a].words[f].push_back(w); else if (-1 - w < (int)cw[a].size()) { const std::vector<int> &c = cw[a][-1 - w][f]; part[a].words[f].insert(part[a].words[f].end(), c.begin(), c.end()); } else sx::Assert(false, "every variable has its tail"); } ret.push_back(part[a]); }
  }
  return ret;
}
#include "models.h"
static Arpa model(int k) { return modelOf(k); }
static const char *STR1[] = {"a", "zz", "", "a b", "b a zz", "b", "a b a"}, *STR0[] = {"a", "b a zz", "a b", "b", "zz", "a b a"};
static const char *TPL[] = {"x0 x1", "x1 x0", "x1 x2 x0", "x2 x0 x1", "a x0 b", "x0", "x2 b x1 x0", "x0 a x1"};
static Sentence sent(const std::string &s) { std::vector<std::string> w; std::istringstream in(s); std::string t; Sentence r; while (in >> t) r.push_back(t[0] == 'x' ? -1 - (t[1] - '0') : (int)Dict::WID(t)); return r; }
// one choice in the quick tier follows from the model
static int structure(int m, int n) { return sx::Tier() ? sx::Pick("structure", 0, 5) : m % n; }
static HyperGraph *forest(bool empty, int strs, int tpls, bool two = false) {
  for (int i = 0; i < NR; i++) rf[i] = Dict::WID(nm("rule", i)); lmf[0] = Dict::WID("lm"); lmf[1] = Dict::WID("lmunk"); lmf[2] = Dict::WID("slm"); lmf[3] = Dict::WID("slmunk");
  HyperGraph *g = new HyperGraph; std::vector<HyperNode *> n; for (int i = 0; i < 4; i++) { n.push_back(new HyperNode(Dict::WID(nm("N", i)), -1, std::make_pair(i == 0 ? 0 : i - 1, i == 0 ? 3 : i))); g->AddNode(n[i]); }
  g->SetWords(Sentence(3, Dict::WID("src"))); int r = 0;
  struct L { static void edge(HyperGraph *g, HyperNode *h, const std::vector<HyperNode *> &t, const std::string &s, int r, double score, bool two) {
    HyperEdge *e = mkEdge(*g, h, t, score); CfgDataVector d(1, CfgData(sent(s))); if (two) { std::string u = s; for (size_t i = 0; i < u.size(); i++) if (u[i] == 'a') u[i] = 'b'; else if (u[i] == 'b') u[i] = 'a'; d.push_back(CfgData(sent(u))); } e->SetTrgData(d); e->SetFeatures(SparseVector(std::vector<SparsePair>(1, SparsePair(rf[r], 1)))); e->SetSrcStr(nm("src", r)); } };
  int last = -1, need = 0; const char **STR = empty ? STR1 : STR0;
  for (int i = 0; i < 2; i++) { int t = sx::Pick(nm("template", i), last + 1, tpls - 2 + i); last = t; Sentence s = sent(TPL[t]); int v = 0; BOOST_FOREACH(int w, s) if (w < 0) v = std::max(v, -w); std::vector<HyperNode *> tl; for (int k = 0; k < v; k++) tl.push_back(n[k + 1]); need = std::max(need, v); L::edge(g, n[0], tl, TPL[t], r++, i == 0 ? 0 : sx::Fix("root score", -16, 16, 1), two); }
  for (int c = 1; c <= need; c++) { int ne = c == 2 ? 1 : 2, prev = -1; for (int k = 0; k < ne; k++) { int s = c == 3 && (k == 0 || !sx::Tier()) ? 3 : sx::Pick(nm("string", c, k), prev + 1, strs - ne + k); prev = s; L::edge(g, n[c], std::vector<HyperNode *>(), STR[s], r++, k == 0 || (c == 3 && !sx::Tier()) ? 0.25 * (c + k) : sx::Fix(nm("score", c), -16, 16, 1), two); } }
  std::vector<HyperNode *> keep; 
  return g;
}
template <class Base, class M> static Base *composer(const Arpa &a, lm::ngram::ModelType t, double w, double uw) {
  MapEnumerateVocab ev; M *m = loadArpa<M>(a, false, &ev); Base *c = new Base(m, t, ev.GetAndFreeVocabMap()); SparseMap ws; ws[Dict::WID("lm")] = w; ws[Dict::WID("lmunk")] = uw; c->UpdateWeights(ws); return c;
}
template <class Base> static Base *composer(const Arpa &a, int t, double w, double uw) {
  using namespace lm::ngram; return t == 0 ? composer<Base, ProbingModel>(a, PROBING, w, uw) : t == 1 ? composer<Base, TrieModel>(a, TRIE, w, uw) : t == 2 ? composer<Base, RestProbingModel>(a, REST_PROBING, w, uw) : t == 3 ? composer<Base, QuantTrieModel>(a, QUANT_TRIE, w, uw) : t == 4 ? composer<Base, ArrayTrieModel>(a, ARRAY_TRIE, w, uw) : composer<Base, QuantArrayTrieModel>(a, QUANT_ARRAY_TRIE, w, uw);
}
// every derivation of the result is one of the original forest with its true score; all: each occurs
static void judge(HyperGraph &g, HyperGraph &r, const std::vector<const Arpa *> &ms, const std::vector<int> &factor, const std::vector<double> &w, bool all, bool best, int factors = 1) {
  sx::Assert(r.NumNodes() > 0 && r.GetNode(0)->NumEdges() > 0, "some derivation is found"); sx::Assert(r.GetWords() == g.GetWords(), "the words are kept");
  for (int i = 0; i < r.NumNodes(); i++) sx::Assert(r.GetNode(i)->GetId() == i, "nodes have their position as identifier");
  BOOST_FOREACH(const HyperEdge *e, r.GetEdges()) { if (e->GetHead() == r.GetNode(0)) continue; int o = -1; for (SparseVector::SparseVectorImpl::const_iterator it = e->GetFeatures().begin(); it != e->GetFeatures().end(); ++it) for (int i = 0; i < NR; i++) if (rf[i] == it->first) o = i; sx::Assert(o >= 0, "edges keep the features"); const HyperEdge *x = g.GetEdges()[o]; sx::Assert(e->GetTrgData() == x->GetTrgData() && e->GetSrcStr() == x->GetSrcStr() && e->NumTails() == x->NumTails() && e->GetHead()->GetSym() == x->GetHead()->GetSym() && e->GetHead()->GetSpan() == x->GetHead()->GetSpan(), "edges keep the rule, label and span"); for (int k = 0; k < e->NumTails(); k++) sx::Assert(e->GetTail(k)->GetSym() == x->GetTail(k)->GetSym() && e->GetTail(k)->GetSpan() == x->GetTail(k)->GetSpan(), "tails stay in source order"); }
  std::vector<DV> want = derivs(g.GetNode(0), factors), got = derivs(r.GetNode(0), factors); std::vector<int> used(want.size(), 0); bool lmok = true, scok = true, bestok = true;
  std::vector<double> total; for (size_t i = 0; i < want.size(); i++) { double t = want[i].score; for (size_t k = 0; k < ms.size(); k++) { int u; double l = ref(*ms[k], want[i].words[factor[k]], u); t += l * w[2 * k] + u * w[2 * k + 1]; } total.push_back(t); }
  for (size_t i = 0; i < got.size(); i++) { int at = -1; for (size_t k = 0; k < want.size(); k++) if (!used[k] && want[k].rules == got[i].rules && want[k].words == got[i].words) at = k; sx::Assert(at >= 0, "every derivation of the result is one of the forest"); used[at] = 1;
    for (size_t k = 0; k < ms.size(); k++) { int u; double l = ref(*ms[k], got[i].words[factor[k]], u); if (getenv("DBG")) { std::cerr << got[i].lm[2*k] << " " << l << " unk " << u << " score " << got[i].score << "/" << total[at] << " :"; BOOST_FOREACH(int x, got[i].words[0]) std::cerr << " " << Dict::WSym(x); std::cerr << " rules"; BOOST_FOREACH(int x, got[i].rules) std::cerr << x; std::cerr << "\n"; } lmok = sx::And(lmok, about(got[i].lm[2 * k], l)); sx::Assert(got[i].lm[2 * k + 1] == u, "the unknown word feature counts the unknown words"); }
    scok = sx::And(scok, about(got[i].score, total[at])); }
  sx::Assert(lmok, "the feature is the log probability of the string with its boundaries"); sx::Assert(scok, "the score is the rule score plus the weighted language model score");
  if (all) sx::Assert(got.size() == want.size(), "no derivation is lost without limits");
  if (best) { bool any = false; for (size_t k = 0; k < want.size(); k++) { bestok = sx::And(bestok, total[k] <= r.GetNode(0)->GetViterbiScore() + TOL); any = sx::Or(any, about(total[k], r.GetNode(0)->GetViterbiScore())); } sx::Assert(bestok, "no derivation beats the best of the result"); sx::Assert(any, "the best score is that of a derivation"); }
  r.ResetViterbiScores(); NbestList nb = r.GetNbest(1); if (best) { bestok = true; for (size_t k = 0; k < want.size(); k++) bestok = sx::And(bestok, total[k] <= nb[0]->GetScore() + TOL); sx::Assert(bestok, "the best path is the best derivation"); }
}
static std::vector<double> ws(double a, double b) { std::vector<double> v; v.push_back(a); v.push_back(b); return v; }
SX_HARNESS(cube) {
  int mi = sx::Pick("model", 0, sx::Q(2, 23)); Arpa a = model(MODELS[mi]); int t = structure(mi, 3), we = sx::Pick("weights", 0, sx::Q(0, 2)); double w = we == 0 ? 0.5 : we == 1 ? 2 : 0, uw = we == 0 ? -2 : we == 1 ? 0 : 1;
  LMComposerBU *c = composer<LMComposerBU>(a, t, w, uw); c->SetStackPopLimit(1000); HyperGraph *g = forest(true, sx::Q(4, 7), sx::Q(4, 8)), *r = c->TransformGraph(*g); judge(*g, *r, std::vector<const Arpa *>(1, &a), std::vector<int>(1, 0), ws(w, uw), true, true); sx::Reach("end"); delete r; delete g; delete c;
}
SX_HARNESS(limited) {
  int mi = sx::Pick("model", sx::Q(1, 0), sx::Q(1, 23)); Arpa a = model(MODELS[mi]); LMComposerBU *c = composer<LMComposerBU>(a, structure(mi, 3), 0.5, -2); c->SetStackPopLimit(sx::Pick("pop limit", 1, sx::Q(2, 3))); c->SetChartLimit(sx::Pick("chart limit", 0, sx::Q(1, 2)));
  HyperGraph *g = forest(true, sx::Q(4, 7), sx::Q(4, 8)), *r = c->TransformGraph(*g); judge(*g, *r, std::vector<const Arpa *>(1, &a), std::vector<int>(1, 0), ws(0.5, -2), false, false); sx::Reach("end"); delete r; delete g; delete c;
}
SX_HARNESS(incremental) {
  int mi = sx::Pick("model", 0, sx::Q(1, 23)); Arpa a = model(MODELS[mi]); int t = structure(mi, 2), we = sx::Pick("weights", 0, sx::Q(0, 1)), lim = sx::Pick("limited", 0, 1); double w = we == 0 ? 0.5 : 2, uw = we == 0 ? -2 : 0;
  LMComposerIncremental *c = composer<LMComposerIncremental>(a, t, w, uw); c->SetStackPopLimit(lim ? 1 : 1000); HyperGraph *g = forest(false, sx::Q(4, 6), sx::Q(4, 8)), *r = c->TransformGraph(*g); judge(*g, *r, std::vector<const Arpa *>(1, &a), std::vector<int>(1, 0), ws(w, uw), !lim, !lim); sx::Reach("end"); delete r; delete g; delete c;
}
SX_HARNESS(two) {
  bool fac = sx::Pick("second factor", 0, 1); GlobalVars::trg_factors = fac ? 2 : 1; static const int CL[] = {2, 7, 3, 6, 10, 15}; Arpa a = model(CL[sx::Pick("model", 0, sx::Q(1, 5))]), b = model(CL[sx::Pick("model 2", 1, sx::Q(2, 5))]); for (std::map<NG, std::pair<double, double> >::iterator i = b.e.begin(); i != b.e.end(); ++i) i->second.first -= 0.25;
  MemFile fa, fb; fa.put(a.text()); fb.put(b.text()); std::vector<std::string> p; p.push_back(fa.name); p.push_back(std::string(fb.name) + "|lm_feat=slm," + (fac ? "factor=1," : "") + "lm_unk_feat=slmunk");
  LMComposerBU *c = new LMComposerBU(p); SparseMap m; std::vector<double> w; double W[] = {0.5, -2, 2, 1}; for (int i = 0; i < 4; i++) w.push_back(W[i]);
  m[Dict::WID("lm")] = w[0]; m[Dict::WID("lmunk")] = w[1]; m[Dict::WID("slm")] = w[2]; m[Dict::WID("slmunk")] = w[3]; c->UpdateWeights(m); c->SetStackPopLimit(1000);
  HyperGraph *g = forest(true, sx::Q(3, 6), sx::Q(3, 4), fac), *r = c->TransformGraph(*g); std::vector<const Arpa *> ms; ms.push_back(&a); ms.push_back(&b); std::vector<int> f; f.push_back(0); f.push_back(fac); judge(*g, *r, ms, f, w, true, true, fac ? 2 : 1); sx::Reach("end"); delete r; delete g; delete c;
}
