// @sources lib/dict.cc lib/sparse-map.cc lib/cfg-data.cc lib/util.cc
// @bounds words: every line of length 0..5 (thorough 7) over {a, b, space, tab, newline}
// @bounds columns: every line made of up to 3 blank-separated tokens from {a, |COL|, |, "b"} (word columns and annotated columns)
// @bounds print: every target side of up to 3 (thorough 4) items from 4 words (with quotes, x0 and @ in them) and variables x0..x2, with or without labels on each variable and on the head
// @bounds annotated: every line of length 0..6 (thorough 7) over {quote, x, 0, 1, :, @, space, a} (quick: length 6 over the first six)
// @bounds features: every line of length 0..5 (thorough 6) over {a, =, 1, ., -, space}
// @bounds featprint: every vector of up to 3 features with names from {a, b=, =c} and values m/4, |m| <= 6
// @bounds escapes: every string of length 0..4 (thorough 5) over {backslash, quote, apostrophe, &, <, >, a, 0xE3}
// @assume words and labels are not empty and contain no blanks; labels are given to variables that occur
// @harness words quick=5 thorough=40
// @harness columns quick=5 thorough=10
// @harness print quick=10 thorough=100
// @harness annotated quick=20 thorough=300
// @harness features quick=10 thorough=100
// @harness featprint quick=10 thorough=20
// @harness escapes quick=10 thorough=60
#include "common.h"
#include <travatar/dict.h>
#include <travatar/string-util.h>
using namespace travatar;
static std::vector<std::string> split(const std::string &s) { // blank-separated tokens
  std::vector<std::string> r; bool in = false;
  for (size_t i = 0; i < s.size(); i++) { bool b = s[i] == ' ' || s[i] == '\t' || s[i] == '\n'; if (b) in = false; else { if (!in) r.push_back(""); in = true; r.back() += s[i]; } }
  return r;
}
static std::string join(const std::vector<std::string> &v) { std::string r; for (size_t i = 0; i < v.size(); i++) { if (i) r += ' '; r += v[i]; } return r; }
SX_HARNESS(words) {
  std::string s = sx::Str("line", sx::Pick("length", 0, sx::Q(5, 7)), "ab \t\n"); std::vector<std::string> t = split(s);
  Sentence w = Dict::ParseWords(s); sx::Assert(w.size() == t.size(), "one id per word");
  for (size_t i = 0; i < t.size(); i++) sx::Assert(Dict::WSym(w[i]) == t[i], "words keep their text and order");
  sx::Assert(Dict::PrintWords(w) == join(t), "printing joins the words with single blanks"); sx::Assert(Dict::ParseWords(Dict::PrintWords(w)) == w, "printing and parsing gives the words back");
  sx::Reach("end");
}
SX_HARNESS(columns) {
  static const char *tok[] = {"a", "|COL|", "|", "\"b\""}; int n = sx::Pick("n", 0, 4); std::vector<std::string> t; bool ann = sx::Pick("annotated", 0, 1), bad = false;
  for (int i = 0; i < n; i++) t.push_back(tok[sx::Pick(nm("token", i), 0, 3)]);
  std::string s = " " + join(t) + " "; std::vector<std::vector<std::string> > cols(1);
  // " |COL| " separates columns; a blank used by one separator cannot start the next
  for (size_t i = 0; i < t.size(); i++) { if (t[i] == "|COL|" && !(i && t[i - 1] == "|COL|" && cols.back().empty())) cols.push_back(std::vector<std::string>()); else { cols.back().push_back(t[i]); } }
  for (size_t c = 0; c < cols.size(); c++) for (size_t i = 0; i < cols[c].size(); i++) bad |= cols[c][i] != "\"b\"";
  if (!ann) {
    std::vector<Sentence> got = Dict::ParseWordVector(s); sx::Assert(got.size() == cols.size(), "one sentence per column");
    for (size_t c = 0; c < cols.size(); c++) sx::Assert(Dict::PrintWords(got[c]) == join(cols[c]), "columns keep their words");
    CfgDataVector v; for (size_t c = 0; c < got.size(); c++) v.push_back(CfgData(got[c])); std::string p; for (size_t c = 0; c < cols.size(); c++) { if (c) p += " |COL| "; p += join(cols[c]); }
    sx::Assert(Dict::PrintWords(v) == p, "columns are printed with separators");
  } else {
    CfgDataVector v; bool ok; SX_NOTHROW(v = Dict::ParseAnnotatedVector(s), ok); sx::Assert(ok == !bad, "columns of quoted words are accepted, others rejected");
    if (ok) { sx::Assert(v.size() == cols.size(), "one target side per column"); for (size_t c = 0; c < cols.size(); c++) sx::Assert(v[c].words.size() == cols[c].size(), "columns keep their words"); }
  }
  sx::Reach("end");
}
SX_HARNESS(print) {
  static const char *wd[] = {"a", "\"", "x0", "@", "b\"c"}; int n = sx::Pick("n", 0, sx::Q(3, 4)); CfgData d;
  for (int i = 0; i < n; i++) { int k = sx::Pick(nm("item", i), -3, 4); if (k < 0) { d.words.push_back(k); int lab = sx::Pick(nm("label", i), 0, 2); if (lab) { int v = -1 - k; if ((int)d.syms.size() <= v) d.syms.resize(v + 1, -1); d.syms[v] = Dict::WID(lab == 1 ? "NP" : "x1:@"); } } else d.words.push_back(Dict::WID(wd[k])); }
  if (sx::Pick("head", 0, 1)) d.label = Dict::WID(sx::Pick("head label", 0, 1) ? "S" : "@");
  std::string p = Dict::PrintAnnotatedWords(d), want;
  for (size_t i = 0; i < d.words.size(); i++) { if (i) want += ' '; int k = d.words[i]; if (k >= 0) want += '"' + Dict::WSym(k) + '"'; else { want += std::string("x") + char('0' - 1 - k); if (d.GetSym(-1 - k) != -1) want += ":" + Dict::WSym(d.GetSym(-1 - k)); } }
  if (d.label != -1) want += " @ " + Dict::WSym(d.label);
  sx::Assert(p == want, "target sides are printed as quoted words and labelled variables");
  CfgData e; bool ok; SX_NOTHROW(e = Dict::ParseAnnotatedWords(p), ok); sx::Assert(ok, "a printed target side is accepted"); sx::Assert(e == d, "a printed target side reads back as itself");
  CfgDataVector v(2, d), u; v[1].label = -1; SX_NOTHROW(u = Dict::ParseAnnotatedVector(Dict::PrintAnnotatedVector(v)), ok); sx::Assert(ok && u == v, "several target sides read back as themselves");
  sx::Reach("end");
}
SX_HARNESS(annotated) {
  int n = sx::Pick("length", 0, sx::Q(6, 7)); std::string s = sx::Str("line", n, sx::Tier() || n < 6 ? "\"x0:@ a1" : "\"x0:@ "); std::vector<std::string> t = split(s);
  // reference reading
  bool good = true; std::vector<std::string> words; std::map<int, std::string> lab; std::string head; bool hasHead = false;
  for (size_t i = 0; i < t.size() && good; i++) {
    const std::string &w = t[i];
    if (w == "@") { if (i + 2 == t.size()) { hasHead = true; head = t[i + 1]; } else good = false; break; }
    if (w.size() > 2 && w[0] == '"' && w[w.size() - 1] == '"') words.push_back(w);
    else if (w[0] == 'x') {
      size_t e = 1; int id = 0; while (e < w.size() && w[e] >= '0' && w[e] <= '9') { id = id * 10 + (w[e] - '0'); e++; }
      if (e == 1 || (e < w.size() && w[e] != ':')) { good = false; break; }
      words.push_back(std::string("x") + std::to_string(id)); if (e < w.size()) lab[id] = w.substr(e + 1);
    } else good = false;
  }
  CfgData d; bool ok; SX_NOTHROW(d = Dict::ParseAnnotatedWords(s), ok);
  sx::Assert(ok == good, "exactly the well-formed target sides are accepted");
  if (!ok) { sx::Reach("rejected"); return; }
  sx::Assert(d.words.size() == words.size(), "one item per token");
  for (size_t i = 0; i < words.size(); i++) sx::Assert(d.words[i] >= 0 ? '"' + Dict::WSym(d.words[i]) + '"' == words[i] : "x" + std::to_string(-1 - d.words[i]) == words[i], "items are read in order");
  for (size_t i = 0; i < d.syms.size(); i++) sx::Assert(d.syms[i] == -1 ? !lab.count(i) : lab.count(i) && Dict::WSym(d.syms[i]) == lab[i], "variables carry their label");
  sx::Assert(lab.empty() || (int)d.syms.size() > lab.rbegin()->first, "variables carry their label");
  sx::Assert((d.label != -1) == hasHead && (!hasHead || Dict::WSym(d.label) == head), "the head label is read");
  sx::Reach("end");
}
SX_HARNESS(features) {
  std::string s = sx::Str("line", sx::Pick("length", 0, sx::Q(5, 6)), "a=1.- "); std::vector<std::string> t = split(s); bool good = true, dup = false; std::map<std::string, double> m; std::set<std::string> seen;
  for (size_t i = 0; i < t.size(); i++) {
    size_t p = t[i].rfind('='); if (p == std::string::npos) { good = false; continue; }
    std::string v = t[i].substr(p + 1), name = t[i].substr(0, p); if (!seen.insert(name).second) dup = true;
    size_t k = 0; bool neg = false; double x = 0, sc = 1; if (k < v.size() && v[k] == '-') { neg = true; k++; } while (k < v.size() && v[k] == '1') { x = x * 10 + 1; k++; } if (k < v.size() && v[k] == '.') for (k++; k < v.size() && v[k] == '1'; k++) { sc /= 10; x += sc; }
    sx::Assume(k == v.size() && sc > 0.05); m[name] += neg ? -x : x; // numbers with at most one decimal
  }
  SparseVector f; SparseMap g; bool ok; SX_NOTHROW(f = Dict::ParseSparseVector(s), ok); sx::Assert(ok == good, "a token without '=' is rejected, others are accepted");
  if (ok) { bool all = true; size_t nz = 0; BOOST_FOREACH(const SparsePair &kv, f.GetImpl()) { std::string nme = Dict::WSym(kv.first); all &= m.count(nme) && std::abs(m[nme] - kv.second) < 1e-9; nz++; } sx::Assert(all && nz == m.size(), "the feature vector has the values written, repeated names added up"); }
  SX_NOTHROW(g = Dict::ParseSparseMap(s), ok); if (good) sx::Assert(ok == !dup, "the map reader rejects repeated names");
  if (ok) { bool all = g.size() == m.size(); BOOST_FOREACH(const SparsePair &kv, g) { std::string nme = Dict::WSym(kv.first); all &= m.count(nme) && std::abs(m[nme] - kv.second) < 1e-9; } sx::Assert(all, "the feature map has the values written"); }
  sx::Reach("end");
}
SX_HARNESS(featprint) {
  static const char *nmv[] = {"a", "b=", "=c"}; SparseVector f; SparseMap g; std::vector<std::string> toks;
  for (int i = 0; i < 3; i++) if (sx::Pick(nm("present", i), 0, 1)) { int m = sx::Pick(nm("value", i), -6, 6); if (!m) continue; f.Add(Dict::WID(nmv[i]), m / 4.0); g[Dict::WID(nmv[i])] = m / 4.0; }
  std::string s = Dict::PrintSparseVector(f); sx::Assert(Dict::ParseSparseVector(s) == f, "a printed feature vector reads back as itself"); sx::Assert(split(s).size() == f.size(), "one token per feature");
  SparseMap h = Dict::ParseSparseMap(Dict::PrintSparseMap(g)); sx::Assert(h == g, "a printed feature map reads back as itself");
  sx::Reach("end");
}
SX_HARNESS(escapes) {
  std::string s = sx::Str("text", sx::Pick("length", 0, sx::Q(4, 5)), "\\\"'&<>a\xE3");
  for (int k = 0; k < 2; k++) {
    std::string e = k ? Dict::EscapeString(s) : EscapeQuotes(s), back; bool open = false;
    for (size_t i = 0; i < e.size(); i++) { if (e[i] == '"') open = true; if (e[i] == '\\' && i + 1 < e.size()) i++; else if (e[i] == '\\') open = true; back += e[i]; }
    sx::Assert(!open, "no quote is left unescaped"); sx::Assert(back == s, "unescaping gives the text back");
  }
  sx::Assert(Dict::WSymEscaped(Dict::WID(s)) == '"' + EscapeQuotes(s) + '"', "escaped words are quoted");
  std::string x = Dict::EncodeXML(s), back; static const char *ent[] = {"&amp;", "&quot;", "&apos;", "&lt;", "&gt;"}; static const char chr[] = "&\"'<>"; bool bare = false;
  for (size_t i = 0; i < x.size();) { int at = -1; for (int k = 0; k < 5; k++) if (x.compare(i, strlen(ent[k]), ent[k]) == 0) at = k; if (at >= 0) { back += chr[at]; i += strlen(ent[at]); } else { if (strchr(chr, x[i])) bare = true; back += x[i++]; } }
  sx::Assert(!bare && back == s, "XML encoding is complete and decodes to the text");
  sx::Reach("end");
}
// @reach annotated rejected
