// @sources lib/tokenizer.cc lib/dict.cc lib/util.cc lib/cfg-data.cc lib/sparse-map.cc
// @cut lm::|util::|HyperGraph|HyperPath|LMComposer|LMFunc|travatar::Weights|MapEnumerateVocab
// @bounds chars: every line of 0..3 (thorough 4) printable ASCII characters
// @bounds pieces: every line of one of 24 pieces (contractions, abbreviations, numbers, units, dots, dashes, quotation marks in and outside ASCII) with a printable ASCII character before and after it, and of two (thorough three) pieces with or without spaces after them (thorough: two also after a printable ASCII character)
// @bounds periods: every word of 1..4 (thorough 5) characters from {A, I, b, .} without three periods in a row, alone or before another word
// @harness periods quick=10 thorough=30
// @bounds sentence: every line of 0..3 words over 9 pieces, with 1..2 spaces between and none or one at either end; and both tokenizer types
// @assume lines are printable ASCII and the listed non-ASCII marks, without tabs
// @harness chars quick=40 thorough=600
// @harness pieces quick=40 thorough=600
// @harness sentence quick=20 thorough=60
// @stub the table of whole-token replacements is a list searched by comparing strings instead of a boost::unordered_map
#include "common.h"
#include <boost/unordered_map.hpp>
#include <travatar/tokenizer.h>
#include <travatar/dict.h>
namespace boost {
template <class K, class V> class sx_map {
  std::vector<std::pair<const K, V> *> v;
  static bool eq(const std::string &a, const std::string &b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r = sx::And(r, a[i] == b[i]); return r; }
 public:
  struct const_iterator {
    std::pair<const K, V> *p; std::pair<const K, V> *operator->() const { return p; } std::pair<const K, V> &operator*() const { return *p; }
    bool operator==(const const_iterator &o) const { return p == o.p; } bool operator!=(const const_iterator &o) const { return p != o.p; }
  };
  typedef const_iterator iterator;
  iterator end() const { iterator i; i.p = 0; return i; }
  iterator find(const K &k) const { iterator r = end(); for (size_t i = 0; i < v.size(); i++) if (eq(v[i]->first, k)) { r.p = v[i]; break; } return r; }
  size_t count(const K &k) const { return find(k) != end(); }
  V &operator[](const K &k) { iterator i = find(k); if (i == end()) { v.push_back(new std::pair<const K, V>(k, V())); i.p = v.back(); } return i.p->second; }
};
}
#define unordered_map sx_map
#include <travatar/tokenizer-penn.h>
#include <lib/tokenizer-penn.cc>
#undef unordered_map
using namespace travatar;
// the text without spaces, with every quotation mark written as one or two Q and every bracket spelled out
static std::string norm(const std::string &s) {
  std::string o;
  for (size_t i = 0; i < s.size(); i++) {
    char c = s[i];
    if (c == ' ') continue;
    if (c == '\'' || c == '`') o += 'Q'; else if (c == '"') o += "QQ";
    else if (c == '(') o += "-LRB-"; else if (c == ')') o += "-RRB-"; else if (c == '[') o += "-LSB-"; else if (c == ']') o += "-RSB-"; else if (c == '{') o += "-LCB-"; else if (c == '}') o += "-RCB-";
    else if (s.compare(i, 3, "\xE2\x80\xA6") == 0) { o += "..."; i += 2; }   // the ellipsis
    else if (s.compare(i, 3, "\xE2\x80\x93") == 0) { o += "--"; i += 2; }    // the dash
    else o += c;
  }
  return o;
}
static TokenizerPenn *tok;
static void check(const std::string &in) {
  std::string out = tok->Tokenize(in);
  sx::Assert(norm(in) == norm(out), "tokenising keeps the text");
  static const char *rewritten[] = {"\xE2\x80\xA6", "\xE2\x80\x93", "cannot", "Cannot", "gonna", "Gonna", "wanna", "Wanna", "gotta", "gimme", "lemme"};
  for (size_t k = 0; k < sizeof(rewritten) / sizeof(*rewritten); k++) { std::string t = " " + out + " ", w = std::string(" ") + rewritten[k] + " "; sx::Assert(t.find(w) == std::string::npos || t.find(w + ". ") != std::string::npos, "an ellipsis or dash that is a token is written in ASCII, and contractions are split"); }
  bool alone = true, spelled = true, commas = true;
  for (size_t i = 0; i < out.size(); i++) {
    char c = out[i]; bool l = i && out[i - 1] != ' ', r = i + 1 < out.size() && out[i + 1] != ' ';
    if (c == '?' || c == '!' || c == '<' || c == '>') alone = alone && !l && !r;
    spelled = spelled && c != '(' && c != ')' && c != '[' && c != ']' && c != '{' && c != '}';
    if (c == ',' || c == ':') commas = commas && (!l || (out[i - 1] >= '0' && out[i - 1] <= '9')) && (!r || (out[i + 1] >= '0' && out[i + 1] <= '9'));
  }
  sx::Assert(alone, "question and exclamation marks and angle brackets stand alone");
  sx::Assert(spelled, "brackets are spelled out");
  sx::Assert(commas, "commas and colons touch nothing but digits");
  sx::Assert(out.empty() || (out[0] != ' ' && out[out.size() - 1] != ' ' && out.find("  ") == std::string::npos), "there are no empty tokens");
}
SX_HARNESS(chars) {
  tok = new TokenizerPenn;
  int n = sx::Pick("length", 0, sx::Q(3, 4)); std::string s;
  for (int i = 0; i < n; i++) s += (char)sx::Int(nm("char", i), 32, 126);
  check(s);
  sx::Reach("end");
}
static const char *piece[] = {"x", "it", "'s", "n't", "'ll", "cannot", "'twas", "Mr", "No.", "5", "km", "...", "\xE2\x80\xA6", "\xE2\x80\x93", "\xE2\x80\x9C", "\xC2\xAB", "\xE3\x80\x8D", "a.b.", "vs", "1,000", "--", "''", "``", "(a)"};
SX_HARNESS(pieces) {
  tok = new TokenizerPenn;
  int n = sx::Pick("pieces", 1, sx::Q(2, 3)); bool chars = n == 1 || (sx::Tier() && n == 2);
  std::string s; if (chars) s += (char)sx::Int("before", 32, 126);
  for (int i = 0; i < n; i++) { s += piece[sx::Pick(nm("piece", i), 0, 23)]; if (n > 1 && sx::Pick(nm("space", i), 0, 1)) s += ' '; }
  if (chars && n == 1) s += (char)sx::Int("after", 32, 126);
  check(s);
  sx::Reach("end");
}
// words of letters and periods: a single final period is a token of its own, unless the word is an abbreviation (here: a single capital)
SX_HARNESS(periods) {
  tok = new TokenizerPenn;
  int n = sx::Pick("length", 1, sx::Q(4, 5)), after = sx::Pick("word after", 0, 1); static const char al[] = "AIb."; std::string w; for (int i = 0; i < n; i++) w += al[sx::Pick(nm("char", i), 0, 3)];
  sx::Assume(w.find("...") == std::string::npos);
  bool split = n > 1 && w.find('.') == w.size() - 1 && w != "A."; std::string want = split ? w.substr(0, n - 1) + " ." : w; if (after) want += " it";
  sx::Assert(tok->Tokenize(w + (after ? " it" : "")) == want, "exactly single final periods after words that are no abbreviations are split off"); sx::Reach("end");
}
SX_HARNESS(sentence) {
  static const int use[] = {0, 1, 2, 3, 5, 9, 10, 17, 23};
  int n = sx::Pick("words", 0, 3); std::string s, plain;
  if (sx::Pick("leading", 0, 1)) s += ' ';
  for (int i = 0; i < n; i++) {
    std::string p = piece[use[sx::Pick(nm("word", i), 0, 8)]];
    if (i) { s += ' '; plain += ' '; if (sx::Pick(nm("wide", i), 0, 1)) s += ' '; }
    s += p; plain += p;
  }
  if (sx::Pick("trailing", 0, 1)) s += ' ';
  boost::shared_ptr<Tokenizer> penn(Tokenizer::CreateFromString("penn")), none(Tokenizer::CreateFromString("none"));
  std::string t = penn->Tokenize(s);
  sx::Assert(Dict::PrintWords(penn->TokenizeToSentence(s)) == t, "the sentence has the tokens of the text");
  sx::Assert(t == penn->Tokenize(plain), "the number of spaces between words does not matter");
  sx::Assert(none->Tokenize(s) == s && Dict::PrintWords(none->TokenizeToSentence(plain)) == plain, "without a tokenizer the line is left as it is");
  bool ok = false; SX_NOTHROW(delete Tokenizer::CreateFromString("treebank"), ok);
  sx::Assert(!ok, "unknown tokenizer types are rejected");
  sx::Reach("end");
}
