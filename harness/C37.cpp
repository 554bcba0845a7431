// @sources lib/alignment.cc
// @bounds parse: every line of length 0..6 (thorough 7) over {0,1,2,-,x,space}: accepted exactly when every blank-separated token is digits-digits, with exactly the pairs written
// @bounds print: every list of up to 3 (thorough 4) pairs with positions from {0,1,2,10,11}, printed and read back, looked up, and listed per source position
// @bounds dense: every set of links between 2 source and 5 target words
// @harness dense quick=5 thorough=5
// @harness parse quick=25 thorough=400
// @harness print quick=10 thorough=100
#include "common.h"
#include <travatar/alignment.h>
using namespace travatar;
typedef std::set<std::pair<int, int> > PairSet;
// independent reading of a line: false when a token is malformed
static bool refParse(const std::string &s, PairSet &out) {
  size_t i = 0; bool ok = true;
  while (i < s.size()) {
    if (s[i] == ' ') { i++; continue; }
    size_t j = i; int v[2] = {0, 0}, d[2] = {0, 0}, side = 0; bool bad = false;
    for (; j < s.size() && s[j] != ' '; j++) {
      if (s[j] == '-') { if (side) bad = true; side = 1; }
      else if (s[j] >= '0' && s[j] <= '9') { v[side] = v[side] * 10 + (s[j] - '0'); d[side]++; }
      else bad = true;
    }
    if (bad || side != 1 || !d[0] || !d[1]) ok = false; else out.insert(std::make_pair(v[0], v[1]));
    i = j;
  }
  return ok;
}
SX_HARNESS(parse) {
  int n = sx::Pick("length", 0, sx::Q(6, 7)); std::string line = sx::Str("line", n, sx::Tier() ? "01-x " : "012-x ");
  PairSet want; bool good = refParse(line, want), ok = true; Alignment a;
  SX_NOTHROW(a = Alignment::FromString(line), ok);
  sx::Assert(ok == good, "a line is accepted exactly when all its tokens are pairs of numbers");
  if (ok) { sx::Assert(a.GetAlignmentVector() == want, "the alignment has exactly the pairs written in the line"); sx::Reach("accepted"); } else sx::Reach("rejected");
  sx::Reach("end");
}
// @reach parse accepted
// @reach parse rejected
SX_HARNESS(print) {
  static const int pos[] = {0, 1, 2, 10, 11};
  int n = sx::Pick("pairs", 0, sx::Q(3, 4)); Alignment a; PairSet want; std::vector<std::set<int> > src;
  for (int i = 0; i < n; i++) {
    int x = pos[sx::Pick(nm("src", i), 0, i ? 3 : 4)], y = pos[sx::Pick(nm("trg", i), 0, i ? 2 : 4)];
    a.AddAlignment(std::make_pair(x, y)); want.insert(std::make_pair(x, y));
    if ((int)src.size() <= x) src.resize(x + 1); src[x].insert(y);
  }
  sx::Assert(a.GetAlignmentVector() == want, "added pairs are present once");
  std::ostringstream text; BOOST_FOREACH(const PairSet::value_type &q, want) { if (q != *want.begin()) text << ' '; text << q.first << '-' << q.second; }
  sx::Assert(a.ToString() == text.str(), "an alignment is printed as its pairs in order with single blanks");
  Alignment b = Alignment::FromString(a.ToString());
  sx::Assert(a == b && !(a != b), "a printed alignment reads back as itself");
  sx::Assert(b.GetSrcAlignments() == src, "per-source lists hold exactly the linked positions");
  for (int x = 0; x < 12; x++) for (int y = 0; y < 12; y++) sx::Assert(b.Contains(x, y) == (want.count(std::make_pair(x, y)) > 0), "Contains is membership");
  sx::Reach("end");
}
SX_HARNESS(dense) {
  Alignment a; std::vector<std::set<int> > src; int mask = sx::Pick("first word", 0, 31) + 32 * sx::Pick("second word", 0, 31); bool rev = sx::Pick("reversed", 0, 1);
  for (int k = 0; k < 10; k++) { int i = rev ? 9 - k : k; if (mask >> i & 1) { a.AddAlignment(std::make_pair(i / 5, i % 5)); if ((int)src.size() <= i / 5) src.resize(i / 5 + 1); src[i / 5].insert(i % 5); } }
  sx::Assert(a.GetSrcAlignments() == src, "per-source lists hold exactly the linked positions"); sx::Assert(Alignment::FromString(a.ToString()) == a, "a printed alignment reads back as itself"); sx::Reach("end");
}
