// Small n-gram models with solver-chosen structure: each n-gram has its own power of two as weight, so that a sum
// identifies the entries it was made of. refScore is the definition of backoff over the entries of the text.
#ifndef SX_LM_H
#define SX_LM_H
#include "common.h"
#include <lm/model.hh>
#include <lm/left.hh>
#include <lm/partial.hh>
#include <lm/config.hh>
#include <map>
#include <stdio.h>
#include <math.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
typedef std::vector<int> NG;
static const char *WN[] = {"<unk>", "<s>", "</s>", "a", "b"};
enum { UNK = 0, BOS = 1, EOS = 2, A = 3, B = 4 };
struct Arpa {
  int order; std::map<NG, std::pair<double, double> > e; bool suffixClosed;
  bool has(const NG &g) const { return e.count(g) > 0; }
  double backoff(const NG &g) const { std::map<NG, std::pair<double, double> >::const_iterator i = e.find(g); return i == e.end() ? 0 : i->second.second; }
  void add(const NG &g, double p, double b) { e[g] = std::make_pair(p, b); }
  // log probability of w after ctx and the length of the n-gram found
  double score(NG ctx, int w, int &len) const {
    while ((int)ctx.size() > order - 1) ctx.erase(ctx.begin());
    double bo = 0;
    for (;;) { NG g = ctx; g.push_back(w); if (has(g)) { len = g.size(); return bo + e.find(g)->second.first; } if (ctx.empty()) { len = 1; return bo - 100; } bo += backoff(ctx); ctx.erase(ctx.begin()); }
  }
  std::string text() const {
    std::string s = "\\data\\\n"; char b[200]; for (int n = 1; n <= order; n++) { int c = 0; for (std::map<NG, std::pair<double, double> >::const_iterator i = e.begin(); i != e.end(); ++i) c += (int)i->first.size() == n; snprintf(b, 200, "ngram %d=%d\n", n, c); s += b; }
    for (int n = 1; n <= order; n++) { snprintf(b, 200, "\n\\%d-grams:\n", n); s += b; for (std::map<NG, std::pair<double, double> >::const_iterator i = e.begin(); i != e.end(); ++i) if ((int)i->first.size() == n) { snprintf(b, 200, "%.20f\t", i->second.first); s += b; for (int k = 0; k < n; k++) { if (k) s += " "; s += WN[i->first[k]]; } if (n < order && i->first.back() != EOS) { snprintf(b, 200, "\t%.20f", i->second.second); s += b; } s += "\n"; } }
    return s + "\n\\end\\\n";
  }
};
inline NG ng(int a, int b = -1, int c = -1, int d = -1) { NG g(1, a); if (b >= 0) g.push_back(b); if (c >= 0) g.push_back(c); if (d >= 0) g.push_back(d); return g; }
inline double p2(int e) { return ldexp(1.0, e); }
// solver-chosen model; rich=false leaves out some choices
// unk: 0 listed in some, 1 chosen, 2 always listed
inline Arpa pickArpa(int order, bool rich, int unk = 1) {
  Arpa m; m.order = order; int flat = sx::Pick("backoffs", 0, 2);   // usual, zero, some positive
  if (unk == 2 || (unk == 0 ? flat != 0 : sx::Pick("unknown word listed", 0, 1))) m.add(ng(UNK), -p2(3), 0);
  std::vector<std::pair<NG, double> > c; 
  m.add(ng(BOS), -99, -p2(-1)); m.add(ng(EOS), -p2(2), 0); m.add(ng(A), -p2(1), -p2(-2)); m.add(ng(B), -p2(0), -p2(-3));
  NG bi[] = {ng(BOS, A), ng(A, B), ng(B, A), ng(A, A), ng(B, EOS)}; for (int i = 0; i < 5; i++) { bool on = i == 1 || (i == 4 && !rich) || sx::Pick(nm("bigram", i), 0, 1); if (on) m.add(bi[i], -p2(-4 - i), i < 4 ? -p2(-9 - i) : 0); }
  NG tri[] = {ng(A, B, A), ng(BOS, A, B), ng(B, A, B), ng(A, B, EOS), ng(A, A, A), ng(B, A, A)}; if (order >= 3) for (int i = 0; i < (rich ? 6 : 4); i++) { NG pre(tri[i].begin(), tri[i].end() - 1); if (m.has(pre) && (i == 3 && !rich ? true : sx::Pick(nm("trigram", i), 0, 1))) m.add(tri[i], -p2(-13 - i), i < 3 && order > 3 ? -3 * p2(-12 - i) : 0); }
  NG four[] = {ng(A, B, A, B), ng(BOS, A, B, A), ng(A, B, A, A)}; if (order >= 4) for (int i = 0; i < 3; i++) { NG pre(four[i].begin(), four[i].end() - 1); if (m.has(pre) && sx::Pick(nm("fourgram", i), 0, 1)) m.add(four[i], -5 * p2(-16 - i), 0); }
  // ARPA needs an entry of every order
  for (int n = 2; n <= order; n++) { bool any = false; for (std::map<NG, std::pair<double, double> >::iterator i = m.e.begin(); i != m.e.end(); ++i) any |= (int)i->first.size() == n; if (!any) { if (n == 3) m.add(ng(A, B, A), -p2(-13), 0); if (n == 4) { if (!m.has(ng(A, B, A))) m.add(ng(A, B, A), -p2(-13), 0); m.add(four[0], -5 * p2(-16), 0); } } }
  if (flat) { int k = 0; for (std::map<NG, std::pair<double, double> >::iterator i = m.e.begin(); i != m.e.end(); ++i) if (i->second.second != 0) { if (flat == 1) i->second.second = 0; else if (k++ % 2 == 0) i->second.second = -i->second.second; } }
  m.suffixClosed = true; for (std::map<NG, std::pair<double, double> >::iterator i = m.e.begin(); i != m.e.end(); ++i) if (i->first.size() > 1 && !m.has(NG(i->first.begin() + 1, i->first.end()))) m.suffixClosed = false;
  return m;
}
// longer histories: states of three words, several backoffs charged at once
inline Arpa pickDeep() {
  Arpa m; m.order = 4; m.add(ng(UNK), -p2(3), 0); m.add(ng(BOS), -99, -p2(-1)); m.add(ng(EOS), -p2(2), 0); m.add(ng(A), -p2(1), -p2(-2)); m.add(ng(B), -p2(0), -p2(-3));
  NG bi[] = {ng(BOS, A), ng(A, B), ng(B, A), ng(B, B)}; for (int i = 0; i < 4; i++) m.add(bi[i], -p2(-4 - i), -p2(-8 - i));
  NG tri[] = {ng(A, B, A), ng(B, A, B), ng(BOS, A, B), ng(A, B, B)}; for (int i = 0; i < 4; i++) if (i == 0 || sx::Pick(nm("trigram", i), 0, 1)) m.add(tri[i], -p2(-12 - i), -3 * p2(-13 - i));
  NG four[] = {ng(A, B, A, B), ng(B, A, B, A), ng(BOS, A, B, A), ng(B, A, B, B)}; for (int i = 0; i < 4; i++) if (m.has(NG(four[i].begin(), four[i].end() - 1)) && (i == 0 || sx::Pick(nm("fourgram", i), 0, 1))) m.add(four[i], -5 * p2(-16 - i), 0);
  m.suffixClosed = true; for (std::map<NG, std::pair<double, double> >::iterator i = m.e.begin(); i != m.e.end(); ++i) if (i->first.size() > 1 && !m.has(NG(i->first.begin() + 1, i->first.end()))) m.suffixClosed = false;
  return m;
}
// an open file in memory and its name
struct MemFile { int fd; char name[64]; MemFile() { int f = memfd_create("lm", 0); fd = fcntl(f, F_DUPFD, 200); close(f); /* the length of the name does not vary */ snprintf(name, 64, "/proc/self/fd/%d", fd); } ~MemFile() { close(fd); } void put(const std::string &s) { if (write(fd, s.data(), s.size()) != (ssize_t)s.size()) abort(); } };
inline lm::ngram::Config quiet() { lm::ngram::Config c; c.messages = NULL; c.show_progress = false; c.building_memory = 1 << 20; c.probing_multiplier = 4; c.temporary_directory_prefix = "/tmp/sxlm"; c.unknown_missing = lm::SILENT; c.arpa_complain = lm::ngram::Config::NONE; c.positive_log_probability = lm::SILENT; return c; }
template <class M> M *loadArpa(const Arpa &a, bool binary, lm::EnumerateVocab *ev = 0, bool after = true) {
  MemFile f; f.put(a.text()); lm::ngram::Config c = quiet();
  if (!binary) { c.enumerate_vocab = ev; return new M(f.name, c); }
  MemFile b; c.write_mmap = b.name; c.write_method = after ? lm::ngram::Config::WRITE_AFTER : lm::ngram::Config::WRITE_MMAP; { M m(f.name, c); } lm::ngram::Config d = quiet(); d.enumerate_vocab = ev; return new M(b.name, d);
}
inline bool near(double a, double b) { double d = a - b; return d < 1e-7 && d > -1e-7; }
#endif
