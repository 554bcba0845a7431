// @sources lib/hiero-extractor.cc lib/alignment.cc lib/dict.cc lib/util.cc lib/cfg-data.cc lib/sparse-map.cc
// @bounds phrases: every link matrix of 0..3 x 0..4 (thorough also 4 x 0..3) words, phrase length limits 1..3 (thorough 4), with or without entries for trailing unaligned source words
// @bounds rules: every link matrix of 1..4 x 1..3 (thorough also 3 x 4) words, phrase limits 2 and 4, terminal limits 1, 2 and 5
// @bounds outside: 2 x 2 words and one link anywhere in 0..3 x 0..3
// @harness phrases quick=30 thorough=300
// @harness rules quick=20 thorough=400
// @bounds longer: 5 source words each linked to one of 4 (thorough 3..5) target words or none, and 6 with links that do not cross, phrase limits 5 and 10, terminal limits 3 and 5
// @harness longer quick=25 thorough=300
// @harness outside quick=5 thorough=10
#include "common.h"
#include <travatar/hiero-extractor.h>
#include <travatar/alignment.h>
#include <travatar/dict.h>
using namespace travatar;
typedef std::pair<std::pair<int, int>, std::pair<int, int> > Box;
static bool link_[8][8]; static int S, T;
static void setup(Alignment &al, Sentence &s, Sentence &t) {
  for (int i = 0; i < S; i++) { s.push_back(Dict::WID(std::string("s") + char('0' + i))); for (int j = 0; j < T; j++) if ((link_[i][j] = sx::Pick(nm("link", i, j), 0, 1))) al.AddAlignment(std::make_pair(i, j)); }
  for (int j = 0; j < T; j++) t.push_back(Dict::WID(std::string("t") + char('0' + j)));
}
// a box of words is a phrase when it has a link and no link leaves it
static bool phrase(int a, int b, int c, int d, int lim) { if (b - a >= lim || d - c >= lim) return false; bool any = false; for (int i = 0; i < S; i++) for (int j = 0; j < T; j++) if (link_[i][j]) { bool x = i >= a && i <= b, y = j >= c && j <= d; if (x != y) return false; any |= x; } return any; }
SX_HARNESS(phrases) {
  S = sx::Pick("source length", 0, sx::Q(3, 4)); T = sx::Pick("target length", 0, 4); sx::Assume(S + T < 8); Alignment al; Sentence s, t; setup(al, s, t); HieroExtractor ex; int lim = sx::Pick("limit", 1, sx::Q(3, 4)); ex.SetMaxInitialPhrase(lim);
  SourceAlignment sa = al.GetSrcAlignments(); if (sx::Pick("entries for all words", 0, 1)) sa.resize(S);
  HieroExtractor::PhrasePairs got = ex.ExtractPhrase(sa, s, t); std::set<Box> have(got.begin(), got.end()), want; for (int a = 0; a < S; a++) for (int b = a; b < S; b++) for (int c = 0; c < T; c++) for (int d = c; d < T; d++) if (phrase(a, b, c, d, lim)) want.insert(std::make_pair(std::make_pair(a, b), std::make_pair(c, d)));
  sx::Assert(have.size() == got.size(), "no phrase pair twice"); sx::Assert(std::includes(want.begin(), want.end(), have.begin(), have.end()), "every phrase pair is consistent"); sx::Assert(have == want, "every consistent phrase pair is found"); sx::Reach("end");
}
static std::string side(const std::vector<int> &v, const char *w) { std::string r; for (size_t i = 0; i < v.size(); i++) { if (i) r += ' '; if (v[i] >= 0) r += std::string("\"") + w + char('0' + v[i]) + '"'; else r += std::string("x") + char('0' - 1 - v[i]) + ":X"; } return r + " @ X"; }
static void rules(Alignment &al, Sentence &s, Sentence &t, int lim, int term) {
  HieroExtractor ex; ex.SetMaxInitialPhrase(lim); ex.SetMaxTerminals(term);
  std::vector<std::vector<HieroRule *> > got = ex.ExtractHieroRule(al, s, t); std::multiset<std::string> have, want; bool groups = true;
  for (size_t i = 0; i < got.size(); i++) { groups &= got[i].size() > 0; for (size_t j = 0; j < got[i].size(); j++) { std::string r = got[i][j]->ToString(); std::multiset<std::string> ls; for (size_t k = 0; k < got[i][j]->GetAlignments().size(); k++) { std::pair<int, int> p = got[i][j]->GetAlignments()[k]; ls.insert(std::string(1, char('0' + p.first)) + char('0' + p.second)); } for (std::multiset<std::string>::iterator it = ls.begin(); it != ls.end(); ++it) r += " " + *it; have.insert(r); delete got[i][j]; } }
  // the tightest phrase of every source span
  std::vector<Box> ph; for (int a = 0; a < S; a++) for (int b = a; b < S; b++) { Box best; int len = 99; for (int c = 0; c < T; c++) for (int d = c; d < T; d++) if (phrase(a, b, c, d, lim) && d - c < len) { len = d - c; best = std::make_pair(std::make_pair(a, b), std::make_pair(c, d)); } if (len < 99) ph.push_back(best); }
  // replace none, one or two phrases inside phrase i, the left one of the source being the first variable
  for (int i = 0; i < (int)ph.size(); i++) for (int j = -1; j < (int)ph.size(); j++) for (int k = -1; k < (j < 0 ? 0 : (int)ph.size()); k++) {
    if (j == i || k == i || (k >= 0 && k == j)) continue; std::vector<Box> v; if (j >= 0) v.push_back(ph[j]); if (k >= 0) { v.push_back(ph[k]); if (!(v[0].first.second < v[1].first.first)) continue; if (!(v[0].second.second < v[1].second.first || v[1].second.second < v[0].second.first)) continue; }
    bool in = true; for (size_t x = 0; x < v.size(); x++) in &= v[x].first.first >= ph[i].first.first && v[x].first.second <= ph[i].first.second && v[x].second.first >= ph[i].second.first && v[x].second.second <= ph[i].second.second; if (!in) continue;
    std::vector<int> sv, tv; for (int q = ph[i].first.first; q <= ph[i].first.second; q++) { int m = q; for (size_t x = 0; x < v.size(); x++) if (q >= v[x].first.first && q <= v[x].first.second) m = -1 - (int)x; if (m >= 0 || sv.empty() || sv.back() != m) sv.push_back(m); } for (int q = ph[i].second.first; q <= ph[i].second.second; q++) { int m = q; for (size_t x = 0; x < v.size(); x++) if (q >= v[x].second.first && q <= v[x].second.second) m = -1 - (int)x; if (m >= 0 || tv.empty() || tv.back() != m) tv.push_back(m); }
    int ns = sv.size() - v.size(), nt = tv.size() - v.size(); if (ns > term || nt > term || !ns || !nt) continue; bool adj = false; for (size_t q = 1; q < sv.size(); q++) adj |= sv[q] < 0 && sv[q - 1] < 0; if (adj) continue;
    std::string r = side(sv, "s") + " ||| " + side(tv, "t"); std::multiset<std::string> ls; int is = 0; for (size_t q = 0; q < sv.size(); q++) if (sv[q] >= 0) { int it = 0; for (size_t p = 0; p < tv.size(); p++) if (tv[p] >= 0) { if (link_[sv[q]][tv[p]]) ls.insert(std::string(1, char('0' + is)) + char('0' + it)); it++; } is++; } for (std::multiset<std::string>::iterator it = ls.begin(); it != ls.end(); ++it) r += " " + *it; want.insert(r); }
  sx::Assert(groups, "no empty group"); bool sub = true; for (std::multiset<std::string>::iterator it = have.begin(); it != have.end(); ++it) sub &= want.count(*it) >= have.count(*it); sx::Assert(sub, "every rule comes from phrases with disjoint phrases replaced by variables"); sx::Assert(have == want, "all such rules are extracted, with the links of their words"); sx::Reach("end");
}
SX_HARNESS(rules) {
  S = sx::Pick("source length", 1, 4); T = sx::Pick("target length", 1, sx::Q(3, 4)); sx::Assume(S + T < 8); Alignment al; Sentence s, t; setup(al, s, t); static const int li[] = {4, 2}, te[] = {5, 1, 2}; int c0 = sx::Pick("limits", 0, 3); rules(al, s, t, li[c0 == 1], te[c0 == 3 ? 2 : c0 == 2]);
}
SX_HARNESS(longer) {
  S = sx::Pick("source length", 5, 6); T = sx::Pick("target length", sx::Q(4, 3), sx::Q(4, 5)); Alignment al; Sentence s, t;
  for (int i = 0; i < S; i++) s.push_back(Dict::WID(std::string("s") + char('0' + i))); for (int j = 0; j < T; j++) t.push_back(Dict::WID(std::string("t") + char('0' + j)));
  int last = 0; for (int i = 0; i < S; i++) for (int j = 0; j < T; j++) link_[i][j] = false;
  for (int i = 0; i < S; i++) { int j = sx::Pick(nm("link of", i), -1, T - 1); if (S == 6 && j >= 0) { sx::Assume(j >= last); last = j; } if (j >= 0) { link_[i][j] = true; al.AddAlignment(std::make_pair(i, j)); } }
  int c0 = sx::Pick("limits", 0, 2); rules(al, s, t, c0 ? 10 : 5, c0 == 2 ? 3 : 5);
}
SX_HARNESS(outside) {
  S = T = 2; Alignment al; Sentence s(2, Dict::WID("s")), t(2, Dict::WID("t")); int i = sx::Pick("source", 0, 3), j = sx::Pick("target", 0, 3); al.AddAlignment(std::make_pair(0, 0)); al.AddAlignment(std::make_pair(i, j)); HieroExtractor ex; bool ok; SX_NOTHROW(ex.ExtractHieroRule(al, s, t), ok); sx::Assert(ok == (i < 2 && j < 2), "links outside the sentences are rejected"); sx::Reach("end");
}
