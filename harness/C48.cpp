// @sources lib/mt-evaluator-runner.cc lib/dict.cc lib/global-debug.cc lib/util.cc lib/sparse-map.cc lib/cfg-data.cc lib/config-base.cc lib/string-util.cc lib/eval-measure.cc lib/eval-measure-wer.cc lib/eval-measure-zeroone.cc
// @cut lm::|util::|HyperGraph|HyperPath|LMComposer|LMFunc|travatar::Weights|MapEnumerateVocab
// @bounds scores: every reference file of 1..2 (thorough 3) lines and one or two output files of up to one line less or more, lines out of 3 with two factors, one measure or three (one reads the second factor, one depends on the references as a whole), with and without sentence scores
// @bounds bootstrap: reference files of 1..4 lines, two or three output files (one possibly too short), two measures, 1..2 (thorough 3) samples, three seeds of rand(); the printed fractions must be those of some choice of samples of half of the sentences (at least one)
// @stub the loader of evaluation measures knows accuracy, word error rate and a measure that counts the words of both sentences times the number of references; standard output is a string buffer
// @harness scores quick=30 thorough=400
// @harness samples quick=20 thorough=200
// @bounds samples: 1..5 (thorough 7) sentences, 1..4 (thorough 6) samples drawn from 20 (thorough 100) seeds, 2 or 3 files, two measures that tell which sentences a sample is made from
// @harness bootstrap quick=30 thorough=400
#include "common.h"
#include <travatar/mt-evaluator-runner.h>
#include <travatar/config-mt-evaluator-runner.h>
#include <travatar/eval-measure-loader.h>
#include <travatar/eval-measure.h>
#include <travatar/eval-measure-wer.h>
#include <travatar/eval-measure-zeroone.h>
#include <travatar/dict.h>
#include <iostream>
#include <sstream>
#include <cstdlib>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
using namespace travatar;
typedef std::vector<std::string> Strs; typedef std::vector<int> Ints;
struct Probe : EvalMeasure { int n; Probe() : n(0) {}
  virtual void InitializeWithReferences(const std::vector<std::vector<Sentence> > &r) { n = r.size(); }
  virtual EvalStatsPtr CalculateStats(const Sentence &r, const Sentence &s) const { return EvalStatsPtr(new EvalStatsAverage(n * (10 * r.size() + s.size()), 1)); }
  virtual EvalStatsPtr ReadStats(const std::string &) { return EvalStatsPtr(new EvalStatsAverage); } };
// statistics that tell which sentences they were added up from
static std::vector<std::vector<EvalStatsDataType> > asked;
struct MemberStats : EvalStats { MemberStats(const std::vector<EvalStatsDataType> &v) : EvalStats(v) {}
  virtual Real ConvertToScore() const { asked.push_back(vals_); Real s = 0; for (size_t i = 0; i < vals_.size(); i++) s += vals_[i] * (1 << i); return s; }
  virtual EvalStatsPtr Clone() const { return EvalStatsPtr(new MemberStats(vals_)); } virtual std::string GetIdString() const { return "SET"; } };
struct Members : EvalMeasure { virtual EvalStatsPtr CalculateStats(const Sentence &r, const Sentence &) const { std::vector<EvalStatsDataType> v(8); v[r.size() - 1] = 1; return EvalStatsPtr(new MemberStats(v)); }
  virtual EvalStatsPtr ReadStats(const std::string &) { return EvalStatsPtr(new MemberStats(std::vector<EvalStatsDataType>(8))); } };
EvalMeasure *EvalMeasureLoader::CreateMeasureFromString(const std::string &s) { if (s == "zeroone") return new EvalMeasureZeroOne(std::string()); if (s == "set") return new Members; if (s == "wer:factor=1") return new EvalMeasureWer(std::string("factor=1")); return new Probe; }
struct File { int fd; std::string name; File(const std::string &t) { int f = memfd_create("f", 0); fd = fcntl(f, F_DUPFD, 200); ::close(f); if (write(fd, t.data(), t.size()) != (ssize_t)t.size()) abort(); char b[40]; snprintf(b, 40, "/proc/self/fd/%d", fd); name = b; } };
static const char *LN[] = {"a b |COL| x y", "b |COL| x", "a b |COL| y"}; static const char *F0[] = {"a b", "b", "a b"}; static const int W0[] = {2, 1, 2}, W1[] = {2, 1, 1};
static const int D1[3][3] = {{0, 1, 1}, {1, 0, 1}, {1, 1, 0}}; // edits between the second factors
static std::string text(const Ints &l) { std::string t; for (size_t i = 0; i < l.size(); i++) t += std::string(LN[l[i]]) + "\n"; return t; }
// the score of some sentences by one of the measures (0 accuracy, 1 word error rate, 2 the one that counts)
static double score(int m, const Ints &ref, const Ints &sys, const Ints &which) {
  double a = 0, b = 0; for (size_t k = 0; k < which.size(); k++) { int i = which[k], r = ref[i], s = sys[i]; if (m == 0) { a += !strcmp(F0[r], F0[s]); b++; } else if (m == 1) { a += D1[r][s]; b += W1[r]; } else { a += ref.size() * (10 * W0[r] + W0[s]); b++; } }
  return a / b;
}
static std::string shown(int m, double v) { static const char *I[] = {"ZEROONE", "WER", "AVG"}; std::ostringstream o; o << I[m] << " = " << v; return o.str(); }
static bool run(ConfigMTEvaluatorRunner &c, const Strs &files, Strs &out) {
  std::vector<char *> v; static char p[] = "p"; v.push_back(p); for (size_t i = 0; i < files.size(); i++) v.push_back(const_cast<char *>(files[i].c_str())); c.LoadConfig(v.size(), &v[0], false);
  std::ostringstream co; std::streambuf *b = std::cout.rdbuf(co.rdbuf()); bool ok; { MTEvaluatorRunner r; SX_NOTHROW(r.Run(c), ok); } std::cout.rdbuf(b); std::istringstream in(co.str()); std::string l; while (std::getline(in, l)) out.push_back(l); return ok;
}
static Ints lines(const char *n, int k) { Ints r; for (int i = 0; i < k; i++) r.push_back(sx::Pick(nm(n, i), 0, 2)); return r; }
SX_HARNESS(scores) {
  int n = sx::Pick("references", 1, sx::Q(2, 3)), nf = sx::Pick("files", 1, 2), three = sx::Pick("measures", 0, 1); bool sent = sx::Pick("sentences", 0, 1); Ints ref = lines("reference", n); std::vector<Ints> sys; Strs names; std::vector<File> fs(1, File(text(ref))); ConfigMTEvaluatorRunner c; c.SetString("ref", fs[0].name); c.SetString("eval", three ? "zeroone wer:factor=1 count" : "wer:factor=1"); if (sent) c.SetString("sent", "true");
  for (int f = 0; f < nf; f++) { sys.push_back(lines(f ? "second" : "first", f ? n : n + sx::Pick("difference", -1, 1))); fs.push_back(File(text(sys[f]))); names.push_back(fs.back().name); }
  Strs out, want; bool ok = run(c, names, out); bool lng = (int)sys[0].size() > n; sx::Assert(ok == !lng, "an output longer than the reference is rejected, any other is evaluated"); if (!ok || lng) { for (size_t i = 0; i < fs.size(); i++) ::close(fs[i].fd); sx::Reach("rejected"); sx::Reach("end"); return; }
  size_t at = 0; for (int f = 0; f < nf; f++) {
    std::string pre = nf > 1 ? names[f] + " " : "";
    if (sent) for (size_t i = 0; i < sys[f].size(); i++) for (int m = three ? 0 : 1; m < (three ? 3 : 2); m++) { std::ostringstream o; o << pre << "Sent " << i << ": " << shown(m, score(m, ref, sys[f], Ints(1, i))); sx::Assert(at < out.size() && out[at] == o.str(), "the scores of each sentence are printed if asked for"); at++; }
    std::string l = nf > 1 ? names[f] + "\t" : ""; Ints all; for (int i = 0; i < n; i++) all.push_back(i);
    if ((int)sys[f].size() == n) { for (int m = three ? 0 : 1; m < (three ? 3 : 2); m++) l += (m && three ? "\t" : "") + shown(m, score(m, ref, sys[f], all)); sx::Assert(at < out.size() && out[at] == l, "the score over all sentences is printed for each file and measure"); }
    else { sx::Assert(at < out.size() && out[at].substr(0, l.size()) == l && out[at].find("FAILED") == l.size(), "a file with too few lines fails"); sx::Reach("short"); }
    at++;
  }
  sx::Assert(at == out.size(), "nothing else is printed"); for (size_t i = 0; i < fs.size(); i++) ::close(fs[i].fd); sx::Reach("end");
}
SX_HARNESS(samples) {
  int n = sx::Pick("references", 1, sx::Q(5, 7)), B = sx::Pick("samples", 1, sx::Q(4, 6)), nf = sx::Pick("files", 2, 3), half = n < 2 ? 1 : n / 2; srand(1 + sx::Pick("seed", 0, sx::Q(19, 99))); bool sent = sx::Pick("sentences", 0, 1); std::string t; for (int i = 0; i < n; i++) t += std::string("a a a a a a a", 2 * i + 1) + "\n";
  std::vector<File> fs(1, File(t)); Strs names, out; for (int f = 0; f < nf; f++) { fs.push_back(File(t)); names.push_back(fs.back().name); } ConfigMTEvaluatorRunner c; c.SetString("ref", fs[0].name); c.SetString("eval", "set set"); std::ostringstream bs; bs << B; c.SetString("bootstrap", bs.str()); if (sent) c.SetString("sent", "true"); asked.clear();
  bool ok = run(c, names, out); for (size_t i = 0; i < fs.size(); i++) ::close(fs[i].fd); sx::Assert(ok, "the outputs are evaluated"); bool sizes = true; int halves = 0;
  for (size_t k = 0; k < asked.size(); k++) { int z = 0; bool once = true; for (size_t i = 0; i < asked[k].size(); i++) { z += asked[k][i] != 0; once &= asked[k][i] == 0 || asked[k][i] == 1; } sizes &= once && (z == n || z == half || (sent && z == 1)); halves += z == half; }
  sx::Assert(sizes, "a sample has half of the sentences, each once"); sx::Assert(halves >= 2 * nf * B, "every sample of every file is scored");
  int cmp = 0; for (size_t k = 0; k < out.size(); k++) if (out[k].compare(0, 6, "  set\t") == 0) { cmp++; sx::Assert(out[k] == "  set\t0 1 0", "the samples are the same for all files"); } sx::Assert(cmp == nf * (nf - 1), "all pairs are compared"); sx::Reach("end");
}
SX_HARNESS(bootstrap) {
  int n = sx::Pick("references", 1, 4), B = sx::Pick("samples", 1, sx::Q(2, 3)), nf = sx::Pick("files", 2, 3), half = n < 2 ? 1 : n / 2; srand(1 + sx::Pick("seed", 0, 2)); Ints ref; for (int i = 0; i < n; i++) ref.push_back(i % 3); std::vector<Ints> sys; Strs names; std::vector<File> fs(1, File(text(ref))); std::vector<int> good;
  ConfigMTEvaluatorRunner c; c.SetString("ref", fs[0].name); c.SetString("eval", "zeroone wer:factor=1"); c.SetString("bootstrap", std::string(1, char('0' + B))); int sh = sx::Pick("short", 0, nf);
  for (int f = 0; f < nf; f++) { Ints l; for (int i = 0; i < n; i++) l.push_back(f == 2 || (f == 1 && i > 1) ? 1 : sx::Pick(nm("line", f, i), 0, 2)); if (sh == f) l.pop_back(); else good.push_back(f); sys.push_back(l); fs.push_back(File(text(l))); names.push_back(fs.back().name); }
  Strs out; bool ok = run(c, names, out); for (size_t i = 0; i < fs.size(); i++) ::close(fs[i].fd); sx::Assert(ok, "the outputs are evaluated"); if (!ok) return;
  Ints all; for (int i = 0; i < n; i++) all.push_back(i); size_t at = 0;
  for (int f = 0; f < nf; f++, at++) { sx::Assert(at < out.size() && (f == sh ? out[at].find("FAILED") != std::string::npos : out[at] == names[f] + "\t" + shown(0, score(0, ref, sys[f], all)) + "\t" + shown(1, score(1, ref, sys[f], all))), "the scores are those over all sentences"); }
  sx::Assert(at + 2 <= out.size() && out[at] == "" && out[at + 1] == "Bootstrap Resampling Significance:", "the comparison follows"); at += 2;
  // all possible samples, and which of two files is better on them
  std::vector<Ints> samples; for (int m = 0; m < 1 << n; m++) { Ints s; for (int i = 0; i < n; i++) if (m >> i & 1) s.push_back(i); if ((int)s.size() == half) samples.push_back(s); } int S = samples.size(), total = 1; for (int b = 0; b < B; b++) total *= S;
  std::vector<Strs> res; std::vector<Ints> sgn; Strs text;
  for (size_t a = 0; a + 1 < good.size(); a++) { sx::Assert(at < out.size() && out[at] == names[good[a]], "each file is compared"); at++;
    for (size_t b = a + 1; b < good.size(); b++) { sx::Assert(at < out.size() && out[at] == " " + names[good[b]], "with each later one"); at++;
      for (int m = 0; m < 2; m++) { Ints s; for (int k = 0; k < S; k++) { double x = score(m, ref, sys[good[a]], samples[k]), y = score(m, ref, sys[good[b]], samples[k]); s.push_back(x > y ? 0 : x < y ? 2 : 1); } sgn.push_back(s); sx::Assert(at < out.size(), "each measure is compared"); text.push_back(at < out.size() ? out[at] : ""); at++; } } }
  sx::Assert(at == out.size(), "nothing else is printed"); bool some = sgn.empty();
  for (int t = 0; t < total && !some; t++) {
    bool same = true; for (size_t q = 0; q < sgn.size() && same; q++) { int cnt[3] = {0, 0, 0}; for (int b = 0, r = t; b < B; b++, r /= S) cnt[sgn[q][r % S]]++; std::ostringstream o; o << "  " << (q % 2 ? "wer:factor=1" : "zeroone") << "\t" << cnt[0] / (double)B << " " << cnt[1] / (double)B << " " << cnt[2] / (double)B; same = o.str() == text[q]; } some = same;
  }
  sx::Assert(some, "wins, ties and losses are those over samples of half of the sentences, the same ones for all files and measures"); if (sgn.size() > 2) sx::Reach("three"); sx::Reach("end");
}
// @reach scores rejected
// @reach scores short
// @reach bootstrap three
