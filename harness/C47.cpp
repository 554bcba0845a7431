// @sources lib/rescorer-runner.cc lib/dict.cc lib/global-debug.cc lib/util.cc lib/sparse-map.cc lib/cfg-data.cc lib/config-base.cc lib/input-file-stream.cc lib/string-util.cc lib/eval-measure.cc lib/eval-measure-wer.cc lib/eval-measure-zeroone.cc lib/eval-measure-bleu.cc
// @cut lm::|util::|HyperGraph|HyperPath|LMComposer|LMFunc|travatar::Weights|MapEnumerateVocab
// @bounds weights: every list of 3 (thorough 4) candidates with two symbolic features in -16..16 quarters, weights from {0, 1, -2} each, two of the sentences possibly the same
// @bounds risk: every list of 1..3 (thorough 4) candidates over 3 sentences with scores from {0, -1, 1.5} (thorough 5 sentences), evaluated by accuracy, word error rate or smoothed BLEU, scales 0, 1 and 2.5, all candidates kept or the best 1..3 of them, with or without rescoring by weights first
// @bounds run: every input of up to 3 (thorough 5) lines with ids from {2, 3, 7} in cyclic order from any of them, features and scores from small menus, possibly an empty sentence or no features, with and without a weight file and an output file, from a file or the standard input
// @stub the loader of evaluation measures knows only these three; standard input and output are string buffers
// @harness weights quick=15 thorough=200
// @harness risk quick=30 thorough=400
// @harness lists quick=15 thorough=200
// @bounds lists: as risk, two lists of 1..3 candidates one after the other by one rescorer
// @harness run quick=30 thorough=400
#include "common.h"
#include <travatar/rescorer-runner.h>
#include <travatar/config-rescorer-runner.h>
#include <travatar/eval-measure-loader.h>
#include <travatar/eval-measure.h>
#include <travatar/sparse-map.h>
#include <travatar/hyper-graph.h>
#include <travatar/dict.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <cmath>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
using namespace travatar;
#include <travatar/eval-measure-wer.h>
#include <travatar/eval-measure-zeroone.h>
#include <travatar/eval-measure-bleu.h>
EvalMeasure *EvalMeasureLoader::CreateMeasureFromString(const std::string &s) { if (s == "zeroone") return new EvalMeasureZeroOne(std::string()); if (s == "wer") return new EvalMeasureWer(std::string()); return new EvalMeasureBleu(s.substr(s.find(':') + 1)); }
struct Runner : RescorerRunner {
  void weights(double a, double b) { rescore_weights_ = true; if (a != 0) weights_[Dict::WID("f")] = a; if (b != 0) weights_[Dict::WID("g")] = b; }
  void risk(const std::string &m, double scale, int keep) { mbr_eval_.reset(EvalMeasureLoader::CreateMeasureFromString(m)); mbr_scale_ = scale; mbr_hyp_cnt_ = keep; }
};
static SparseVector feats(double a, double b) { SparseVector v; v.Add(Dict::WID("f"), a); v.Add(Dict::WID("g"), b); return v; }
static bool near(double a, double b) { return a - b < 1.0 / 1048576 && b - a < 1.0 / 1048576; }
SX_HARNESS(weights) {
  static const double W[] = {0, 1, -2}; double wf = W[sx::Pick("weight f", 0, 2)], wg = W[sx::Pick("weight g", 0, 2)]; int n = sx::Q(3, 4); bool same = sx::Pick("same sentence", 0, 1), use = sx::Pick("with weights", 0, 1);
  RescorerNbest nb; std::vector<double> f, g, want; Runner r; if (use) r.weights(wf, wg);
  for (int i = 0; i < n; i++) {
    f.push_back(sx::Fix(nm("f", i), -16, 16, 2)); g.push_back(sx::Fix(nm("g", i), -16, 16, 2)); double old = use ? 3 - i : f[i];
    SparseVector v; v.GetImpl().push_back(SparsePair(Dict::WID("f"), f[i])); v.GetImpl().push_back(SparsePair(Dict::WID("g"), g[i])); nb.push_back(RescorerNbestElement(Sentence(1, same && i == 1 ? 100 : 100 + i), v, old)); want.push_back(use ? f[i] * wf + g[i] * wg : old);
  }
  r.Rescore(nb); sx::Assert((int)nb.size() == n, "no candidate is lost"); std::vector<int> used(n, 0);
  for (int i = 0; i < n; i++) {
    if (i) sx::Assert(nb[i - 1].score >= nb[i].score, "candidates are in order of their new score");
    const SparseVector::SparseVectorImpl &im = nb[i].feat.GetImpl(); bool some = false;
    // the candidate must be one of the input that was not found yet
    for (int k = 0; k < n; k++) some = sx::Or(some, sx::And(nb[i].sent[0] == (same && k == 1 ? 100 : 100 + k), sx::And(sx::And(im[0].second == f[k], im[1].second == g[k]), nb[i].score == want[k])));
    sx::Assert(im.size() == 2 && some, "the score of a candidate is the product of the weights and its features"); used[i] = nb[i].sent[0];
  }
  std::sort(used.begin(), used.end()); for (int i = 0; i < n; i++) sx::Assert(used[i] == (i == 1 && same ? 100 : 100 + i), "every candidate is kept");
  sx::Reach("end");
}
struct Cand { int s, id; double sc; };
static bool better(const Cand &a, const Cand &b) { return a.sc > b.sc; }
SX_HARNESS(risk) {
  static const char *S[] = {"a", "a b", "b a c", "", "c c"}; static const char *M[] = {"zeroone", "wer", "bleu:smooth=1"}; static const double C[] = {0, -1, 1.5}, SC[] = {0, 1, 2.5};
  int n = sx::Pick("candidates", 1, sx::Q(3, 4)), m = sx::Pick("measure", 0, 2), keep = sx::Pick("keep", 0, n - 1); double scale = SC[sx::Pick("scale", 0, 2)]; bool use = sx::Pick("with weights", 0, 1); std::vector<Cand> cs; RescorerNbest nb;
  Runner r; r.risk(M[m], scale, keep); if (use) r.weights(1, 0); int prev = 0;
  for (int i = 0; i < n; i++) {
    Cand c; c.id = i; c.s = sx::Pick(nm("sentence", i), 0, std::min(sx::Q(2, 4), i + 1)); c.sc = C[i > 2 ? prev : sx::Pick(nm("score", i), 0, 2)] + i * 0.125; prev = i > 1 ? 0 : 1; cs.push_back(c);
    nb.push_back(RescorerNbestElement(Dict::ParseWords(S[c.s]), feats(use ? c.sc : 1, 0.5 + i), use ? 7 - i : c.sc));
  }
  // the candidates that take part
  std::stable_sort(cs.begin(), cs.end(), better); if (keep) cs.resize(keep); double sum = 0; for (size_t i = 0; i < cs.size(); i++) sum += std::exp(cs[i].sc * scale);
  r.Rescore(nb); sx::Assert(nb.size() == cs.size(), "the asked number of candidates is kept"); std::vector<int> seen(n, 0);
  boost::shared_ptr<EvalMeasure> ev(EvalMeasureLoader::CreateMeasureFromString(M[m]));
  for (size_t i = 0; i < nb.size(); i++) {
    if (i) sx::Assert(nb[i - 1].score >= nb[i].score, "candidates are in order of their new score"); int k = -1;
    for (size_t j = 0; j < cs.size(); j++) if (nb[i].feat == feats(use ? cs[j].sc : 1, 0.5 + cs[j].id) && !seen[cs[j].id]) k = j;
    sx::Assert(k >= 0, "the candidates kept are those of the best scores"); if (k < 0) return; seen[cs[k].id] = 1;
    sx::Assert(nb[i].sent == Dict::ParseWords(S[cs[k].s]), "sentences stay with their features"); double e = 0;
    for (size_t j = 0; j < cs.size(); j++) e += std::exp(cs[j].sc * scale) / sum * ev->CalculateStats(Dict::ParseWords(S[cs[j].s]), nb[i].sent)->ConvertToScore();
    sx::Assert(near(e, nb[i].score), "the score of a candidate is its expected evaluation");
  }
  sx::Reach("end");
}
SX_HARNESS(lists) {
  static const char *S[] = {"a", "a b", "b a c", "b b", "c c a"}; static const char *M[] = {"bleu:smooth=1", "wer"}; int m = sx::Pick("measure", 0, 1); Runner r; r.risk(M[m], 1, 0);
  for (int l = 0; l < 2; l++) {
    RescorerNbest nb, other; int n = sx::Pick(nm("candidates", l), 1, 3); for (int i = 0; i < n; i++) nb.push_back(RescorerNbestElement(Dict::ParseWords(S[sx::Pick(nm("sentence", l, i), 0, i == 2 ? 1 : sx::Q(3, 4))]), feats(1, i), i * 0.5));
    other = nb; Runner fresh; fresh.risk(M[m], 1, 0); r.Rescore(nb); fresh.Rescore(other); std::vector<int> seen(n, 0); bool ok = nb.size() == other.size() && (int)nb.size() == n;
    for (int i = 0; ok && i < n; i++) { bool hit = false; for (int k = 0; k < n && !hit; k++) if (!seen[k] && nb[i].feat == other[k].feat && nb[i].sent == other[k].sent && near(nb[i].score, other[k].score)) { seen[k] = 1; hit = true; } ok &= hit && (!i || nb[i - 1].score >= nb[i].score); }
    sx::Assert(ok, "a list is rescored as if it were the only one");
  }
  sx::Reach("end");
}
struct File { int fd; std::string name; File(const std::string &t) { int f = memfd_create("f", 0); fd = fcntl(f, F_DUPFD, 200); ::close(f); if (write(fd, t.data(), t.size()) != (ssize_t)t.size()) abort(); char b[40]; snprintf(b, 40, "/proc/self/fd/%d", fd); name = b; } ~File() { ::close(fd); }
  std::string text() { std::string t; char b[256]; off_t o = 0; ssize_t k; while ((k = pread(fd, b, 256, o)) > 0) { t.append(b, k); o += k; } return t; } };
SX_HARNESS(run) {
  static const char *S[] = {"a b", "c", ""}, *FT[] = {"f=1 g=2", "g=-1", ""}; static const double A[] = {1, 0, 0}, B[] = {2, -1, 0}; static const int ID[] = {2, 3, 7}; int n = sx::Q(3, 5), n2 = sx::Pick("lines", 1, n);
  bool wt = sx::Pick("weights", 0, 1), outf = sx::Pick("output file", 0, 1), std_in = sx::Pick("standard input", 0, 1); std::ostringstream in; std::vector<int> id, s, f; std::vector<double> sc;
  for (int i = 0; i < n2; i++) {
    id.push_back(i == 0 ? sx::Pick("first id", 0, 2) : (id[i - 1] + sx::Pick(nm("next", i), 0, 1)) % 3); s.push_back((i + (i == 1 ? sx::Pick("sentence", 0, 2) : 0)) % 3); f.push_back(i < 3 ? sx::Pick(nm("features", i), 0, 2) : 1); sc.push_back(i == 2 ? sx::Pick("score", 0, 3) - 0.5 : i * 0.5);
    in << ID[id[i]] << " ||| " << S[s[i]] << " ||| " << sc[i] << " ||| " << FT[f[i]] << "\n";
  }
  File fin(in.str()), wf("f=0.5\ng=-1\n"), fo(""); ConfigRescorer c; c.SetString("nbest", std_in ? "-" : fin.name); if (wt) c.SetString("weight_in", wf.name); if (outf) c.SetString("nbest_out", fo.name);
  std::istringstream ci(in.str()); std::ostringstream co, ce; std::streambuf *a = std::cin.rdbuf(ci.rdbuf()), *b = std::cout.rdbuf(co.rdbuf()), *e = std::cerr.rdbuf(ce.rdbuf()); bool ok; { Runner r; SX_NOTHROW(r.Run(c), ok); } std::cin.rdbuf(a); std::cout.rdbuf(b); std::cerr.rdbuf(e);
  sx::Assert(ok, "a well-formed input is accepted"); if (!ok) return;
  std::istringstream best(co.str()), all(fo.text()); std::string l; int num = 0;
  for (int i = 0; i < n2;) {
    int j = i; while (j < n2 && id[j] == id[i]) j++; double top = -1e9, last = 1e9; for (int k = i; k < j; k++) { if (wt) sc[k] = 0.5 * A[f[k]] - B[f[k]]; top = std::max(top, sc[k]); }
    bool got = std::getline(best, l) ? true : false, some = false; for (int k = i; k < j; k++) some |= sc[k] == top && l == S[s[k]]; sx::Assert(got && some, "the best candidate of every list is printed, in order");
    std::vector<int> seen(n2, 0);
    if (outf) for (int k = i; k < j; k++) {
      sx::Assert(std::getline(all, l) ? true : false, "the whole list is written"); int hit = -1;
      for (int q = i; q < j; q++) if (!seen[q]) { std::ostringstream w; w << num << " ||| " << S[s[q]] << " ||| " << sc[q] << " ||| " << Dict::PrintSparseVector(Dict::ParseSparseVector(FT[f[q]])); if (w.str() == l && hit < 0) hit = q; }
      sx::Assert(hit >= 0, "each line has the number of the list, the sentence, its new score and its features"); if (hit < 0) return; seen[hit] = 1; sx::Assert(sc[hit] <= last, "the list is written in order of the new scores"); last = sc[hit];
    }
    i = j; num++; if (num > 1) sx::Reach("several");
  }
  sx::Assert(!std::getline(best, l) && !std::getline(all, l), "nothing else is printed"); sx::Reach("end");
}
// @reach run several
