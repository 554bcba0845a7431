// @sources lib/caser.cc lib/train-caser-runner.cc lib/config-base.cc lib/hyper-graph.cc lib/dict.cc lib/util.cc lib/cfg-data.cc lib/sparse-map.cc
// @bounds word: every word of length 0..3 (thorough 4) over {a, z, A, Z, ., -, 1, apostrophe}
// @bounds sentence: every sentence of 0..4 (thorough 5) words from {aB, Ab, ., (, x} (the first two also : and a double quote) in every mode, with every true-casing model of up to 2 lines over spellings of ab and x
// @bounds graph: every tree of up to 3 words (each under its own preterminal) from {aB, Ab, ., (, x} in every mode
// @bounds train: every corpus of 2 lines of 0..3 (thorough 4) words from {ab, Ab, aB, .}, followed by loading the model
// @assume letters are ASCII
// @stub boost::locale::generator (ICU): case conversion by an ASCII facet
// @bounds names: none, low, title and another word, cut to any length or with a letter more, any one letter changed
// @reach names accepted
// @harness names quick=5 thorough=10
// @harness word quick=10 thorough=100
// @harness sentence quick=20 thorough=300
// @harness graph quick=10 thorough=60
// @harness train quick=20 thorough=300
#include "hg.h"
#include <travatar/caser.h>
#include <travatar/train-caser-runner.h>
#include <travatar/config-train-caser-runner.h>
#include <boost/locale.hpp>
#include <fstream>
#include <unistd.h>
static char up(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static char low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static std::string lower(std::string s) { for (size_t i = 0; i < s.size(); i++) s[i] = low(s[i]); return s; }
static std::string title(std::string s) { s = lower(s); if (s.size()) s[0] = up(s[0]); return s; }
struct Ascii : boost::locale::converter<char> {
  virtual std::string convert(boost::locale::converter_base::conversion_type how, const char *b, const char *e, int) const {
    std::string s(b, e); if (how == boost::locale::converter_base::lower_case) return lower(s); if (how == boost::locale::converter_base::title_case) return title(s);
    for (size_t i = 0; i < s.size(); i++) s[i] = up(s[i]); return s; }
};
namespace boost { namespace locale {
generator::generator() {} generator::~generator() {}
std::locale generator::generate(const std::string &) const { return std::locale(std::locale::classic(), new Ascii); }
} }
static bool isEnd(const std::string &s) { return s == "." || s == ":" || s == "!" || s == "?"; }
static bool isOpen(const std::string &s) { return s == "(" || s == "[" || s == "\"" || s == "'" || s == "`" || s == "``"; }
static std::vector<bool> firsts(const std::vector<std::string> &w) {
  std::vector<bool> r(w.size(), false);
  for (size_t i = 0; i < w.size(); i++) {
    if (i == 0) { r[0] = true; continue; }
    if (isEnd(w[i]) || isOpen(w[i])) continue;
    int j = (int)i - 1; while (j >= 0 && isOpen(w[j])) j--;
    r[i] = j < 0 || isEnd(w[j]);
  }
  return r;
}
static std::vector<std::string> spell(const Sentence &s) { std::vector<std::string> r; BOOST_FOREACH(WordId w, s) r.push_back(Dict::WSym(w)); return r; }
static Sentence ids(const std::vector<std::string> &s) { Sentence r; BOOST_FOREACH(const std::string &w, s) r.push_back(Dict::WID(w)); return r; }
SX_HARNESS(word) {
  std::string s = sx::Str("word", sx::Pick("length", 0, sx::Q(3, 4)), "azAZ.-1'"); Caser c; std::string l = c.ToLower(s), t = c.ToTitle(s);
  sx::Assert(l == lower(s), "lower-casing changes capitals only"); sx::Assert(t == title(s), "title-casing only touches the case of letters");
  sx::Assert(c.ToLower(l) == l && c.ToTitle(t) == t, "case conversion is idempotent"); sx::Assert(c.ToLower(t) == l, "title case keeps the letters");
  sx::Assert(Dict::WSym(c.ToLower(Dict::WID(s))) == l && Dict::WSym(c.ToTitle(Dict::WID(s))) == t, "words convert like strings");
  sx::Assert(c.TrueCase(s) == s, "without a model true-casing changes nothing"); c.AddTrueValue(s); sx::Assert(c.TrueCase(l) == s && c.TrueCase(t) == s && c.TrueCase(s) == s, "the listed form is used for every spelling");
  sx::Assert(c.TrueCase(s + "x") == s + "x", "other words are left alone");
  sx::Reach("end");
}
struct Model { std::map<std::string, std::string> m; };
static void addModel(Caser &c, Model &m) {
  static const char *f[] = {"ab", "AB", "aB", "X"}; int k = sx::Pick("model lines", 0, 2);
  for (int i = 0; i < k; i++) { std::string w = f[sx::Pick(nm("form", i), 0, 3)]; c.AddTrueValue(w); m.m[lower(w)] = w; }
}
static std::string expect(int mode, const Model &m, bool first, const std::string &w) {
  if (mode == 0) return lower(w); if (!first) return w; if (mode == 1) return title(w);
  std::map<std::string, std::string>::const_iterator it = m.m.find(lower(w)); return it == m.m.end() ? w : it->second;
}
SX_HARNESS(sentence) {
  static const char *wd[] = {"aB", "Ab", ".", "(", "x", ":", "\""}; int n = sx::Pick("length", 0, sx::Q(4, 5)); std::vector<std::string> w; for (int i = 0; i < n; i++) w.push_back(wd[sx::Pick(nm("word", i), 0, i < 2 ? 6 : 4)]);
  Caser c; Model m; int mode = sx::Pick("mode", 0, 2); if (mode == 2) { addModel(c, m); }
  Sentence s = ids(w); std::vector<bool> f = firsts(w); sx::Assert(c.SentenceFirst(s) == f, "sentence starts are the first word and words after an end mark, past opening marks");
  for (int round = 0; round < 2; round++) {
    if (mode == 0) c.ToLower(s); else if (mode == 1) c.ToTitle(s); else c.TrueCase(s);
    sx::Assert((int)s.size() == n, "the number of words is kept");
    for (int i = 0; i < n; i++) sx::Assert(Dict::WSym(s[i]) == expect(mode, m, f[i], w[i]), "each word gets its case, twice as once");
  }
  sx::Reach("end");
}
SX_HARNESS(graph) {
  static const char *wd[] = {"aB", "Ab", ".", "(", "x"}; int n = sx::Pick("length", 1, 3); std::vector<std::string> w; for (int i = 0; i < n; i++) w.push_back(wd[sx::Pick(nm("word", i), 0, 4)]);
  HyperGraph g; g.SetWords(ids(w)); std::vector<HyperNode *> pre; HyperNode *root = new HyperNode; root->SetSym(Dict::WID("Sb")); root->SetSpan(std::make_pair(0, n)); g.AddNode(root);
  for (int i = 0; i < n; i++) { HyperNode *p = new HyperNode; p->SetSym(Dict::WID(i ? "aB" : "ab")); p->SetSpan(std::make_pair(i, i + 1)); g.AddNode(p); pre.push_back(p); }
  for (int i = n - 1; i >= 0; i--) { HyperNode *t = new HyperNode; t->SetSym(g.GetWord(i)); t->SetSpan(std::make_pair(i, i + 1)); g.AddNode(t); mkEdge(g, pre[i], std::vector<HyperNode *>(1, t), i); }
  mkEdge(g, root, pre, 5);
  Caser c; Model m; int mode = sx::Pick("mode", 0, 3); c.SetType(mode == 0 ? Caser::LOW : mode == 1 ? Caser::TITLE : mode == 2 ? Caser::TRUE : Caser::NONE); if (mode == 2) addModel(c, m);
  boost::shared_ptr<HyperGraph> out(c.TransformGraph(g)); std::vector<bool> f = firsts(w); Sentence want;
  for (int i = 0; i < n; i++) want.push_back(Dict::WID(mode == 3 ? w[i] : expect(mode, m, f[i], w[i])));
  sx::Assert(out->GetWords() == want && g.GetWords() == ids(w), "the words change case, those of the input do not"); sx::Assert(out->NumNodes() == g.NumNodes() && out->NumEdges() == g.NumEdges(), "the structure is kept");
  for (int i = 0; i < g.NumNodes(); i++) {
    const HyperNode *a = g.GetNode(i), *b = out->GetNode(i); bool term = i > n; int p = term ? 2 * n - i : 0;
    sx::Assert(b->GetSym() == (term ? want[p] : a->GetSym()), "leaves agree with the words and labels are left alone"); sx::Assert(a->GetSym() == (term ? Dict::WID(w[p]) : a->GetSym()), "the input is left alone");
    sx::Assert(a->GetSpan() == b->GetSpan() && a->NumEdges() == b->NumEdges(), "spans and edges are kept");
    for (int e = 0; e < a->NumEdges(); e++) { sx::Assert(a->GetEdge(e)->GetScore() == b->GetEdge(e)->GetScore() && a->GetEdge(e)->NumTails() == b->GetEdge(e)->NumTails(), "edges are kept"); for (int t = 0; t < a->GetEdge(e)->NumTails(); t++) sx::Assert(a->GetEdge(e)->GetTail(t)->GetId() == b->GetEdge(e)->GetTail(t)->GetId(), "tails are kept"); }
  }
  sx::Reach("end");
}
SX_HARNESS(names) {
  // the name of a mode, with any one character of it changed, dropped or added at the end
  static const char *name[] = {"none", "low", "title", "high"}; int k = sx::Pick("name", 0, 3), len = sx::Pick("length", 0, (int)strlen(name[k]) + 1); std::string s = std::string(name[k]).substr(0, len);
  while ((int)s.size() < len) s += 'e'; int at = sx::Pick("changed", -1, len - 1); if (at >= 0) s[at] = (char)sx::Int("character", 97, 122); sx::ConcStr(s);
  Caser *c = NULL; bool ok = true; SX_NOTHROW(c = Caser::CreateCaserFromString(s), ok);
  sx::Assert(ok == (s == "none" || s == "low" || s == "title"), "exactly the names of modes are accepted");
  if (ok) { sx::Reach("accepted"); Sentence w = ids(std::vector<std::string>(2, "aB")); if (c) { HyperGraph g; g.SetWords(w); boost::shared_ptr<HyperGraph> o(c->TransformGraph(g)); w = o->GetWords(); }
    sx::Assert(Dict::WSym(w[0]) == (s == "none" ? "aB" : s == "low" ? "ab" : "Ab") && Dict::WSym(w[1]) == (s == "low" ? "ab" : "aB"), "each name gives its mode"); }
  sx::Reach("end");
}
SX_HARNESS(train) {
  static const char *wd[] = {"ab", "Ab", "aB", "."}; std::map<std::string, std::map<std::string, int> > cnt; std::string text; int L = sx::Q(3, 4);
  for (int l = 0; l < 2; l++) {
    int n = sx::Pick(nm("words", l), 0, L); std::vector<std::string> w; for (int i = 0; i < n; i++) { w.push_back(wd[sx::Pick(nm("word", l, i), 0, 3)]); if (i) text += ' '; text += w.back(); } text += '\n';
    std::vector<bool> f = firsts(w); for (int i = 0; i < n; i++) if (!f[i]) cnt[lower(w[i])][w[i]]++;
  }
  std::istringstream in(text); std::ostringstream out; std::streambuf *ib = std::cin.rdbuf(in.rdbuf()), *ob = std::cout.rdbuf(out.rdbuf()); std::cin.clear();
  ConfigTrainCaserRunner cfg; TrainCaserRunner().Run(cfg); std::cin.rdbuf(ib); std::cout.rdbuf(ob);
  std::vector<std::string> ml; std::string line; std::istringstream mi(out.str()); while (std::getline(mi, line)) ml.push_back(line);
  sx::Assert(ml.size() == cnt.size(), "one line per word of the corpus seen inside sentences");
  std::set<std::string> seen;
  for (size_t i = 0; i < ml.size(); i++) {
    std::string l = lower(ml[i]); sx::Assert(cnt.count(l) && seen.insert(l).second, "each word is listed once");
    std::map<std::string, int> &c = cnt[l]; sx::Assert(c.count(ml[i]), "the listed form occurs"); for (std::map<std::string, int>::iterator it = c.begin(); it != c.end(); ++it) sx::Assert(it->second <= c[ml[i]], "the most frequent form is listed");
  }
  char path[64]; snprintf(path, sizeof path, "/tmp/sx-caser-%d", (int)getpid()); { std::ofstream o(path); o << out.str(); }
  boost::shared_ptr<Caser> c(Caser::CreateCaserFromString(std::string("true:model=") + path)); unlink(path);
  for (size_t i = 0; i < ml.size(); i++) sx::Assert(c->TrueCase(title(ml[i])) == ml[i], "true-casing uses the listed form");
  sx::Assert(c->TrueCase(std::string("zZ")) == "zZ", "unlisted words stay");
  sx::Reach("end");
}
