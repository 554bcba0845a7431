// @sources lib/eval-measure.cc lib/eval-measure-ter.cc lib/dict.cc lib/util.cc lib/cfg-data.cc lib/sparse-map.cc tercpp/tercalc.cpp tercpp/terAlignment.cpp tercpp/terShift.cpp tercpp/alignmentStruct.cpp tercpp/hashMap.cpp tercpp/hashMapInfos.cpp tercpp/hashMapStringInfos.cpp tercpp/infosHasher.cpp tercpp/stringHasher.cpp tercpp/stringInfosHasher.cpp tercpp/tools.cpp
// @cut lm::|util::|HyperGraph|HyperPath|LMComposer|LMFunc|travatar::Weights|MapEnumerateVocab
// @bounds ter: every pair of sentences of 0..5 words, at most 8 (thorough: 0..6, at most 9) together, each word any of ten one-character words
// @bounds shifts: every pair of sentences of 5..6 (thorough 5..7) words where the second is the first one, whose words are all different, with the words in any order, or with one word replaced
// @bounds measure: every pair of sentences of 0..3 words over three numeric word ids, one or two pairs summed, with and without inversion
// @bounds lengths: sentences of 999..1002 words against sentences of 0..2 words, and the other way round
// @assume words that contain tabs are not used, as the tokenised input cannot contain them
// @reach shifts oneblock
// @harness ter quick=25 thorough=400
// @harness shifts quick=20 thorough=300
// @harness measure quick=20 thorough=120
// @harness lengths quick=20 thorough=60 path=60
#include "words.h"
#include <travatar/eval-measure-ter.h>
#include <tercpp/tercalc.h>
#include <tercpp/terAlignment.h>
using namespace travatar;
typedef std::vector<std::string> Words;
static int distance(const Words &a, const Words &b) {
  std::vector<std::vector<int> > d(a.size() + 1, std::vector<int>(b.size() + 1));
  for (size_t i = 0; i <= a.size(); i++) for (size_t j = 0; j <= b.size(); j++) {
    if (!i || !j) { d[i][j] = i + j; continue; }
    d[i][j] = std::min(std::min(d[i - 1][j], d[i][j - 1]) + 1, d[i - 1][j - 1] + (a[i - 1] == b[j - 1] ? 0 : 1));
  }
  return d[a.size()][b.size()];
}
// after is before with the block s..e moved to some other place
static bool moved(const Words &before, const Words &after, int s, int e) {
  if (s < 0 || e < s || e >= (int)before.size() || after.size() != before.size()) return false;
  Words rest(before.begin(), before.begin() + s), block(before.begin() + s, before.begin() + e + 1);
  rest.insert(rest.end(), before.begin() + e + 1, before.end());
  for (size_t k = 0; k <= rest.size(); k++) { Words w = rest; w.insert(w.begin() + k, block.begin(), block.end()); if (w == after) return true; }
  return false;
}
static int check(const Words &hyp, const Words &ref) {
  boost::shared_ptr<TERCpp::terCalc> calc(new TERCpp::terCalc);
  TERCpp::terAlignment al = calc->TER(hyp, ref);
  Words cur = hyp; bool ok = true;
  for (size_t i = 0; i < al.allshifts.size(); i++) {
    TERCpp::terShift &s = al.allshifts[i];
    ok = ok && moved(cur, s.aftershift, s.start, s.end) && s.shifted == Words(cur.begin() + s.start, cur.begin() + s.end + 1) && s.cost == 1;
    cur = s.aftershift; sx::Reach("shift");
  }
  sx::Assert(ok, "each reported shift moves a block of the sentence");
  sx::Assert(cur == al.aftershift, "the reported sentence is the one after all shifts");
  size_t h = 0, r = 0; int edits = 0; ok = true;
  for (size_t i = 0; ok && i < al.alignment.size(); i++) {
    char c = al.alignment[i];
    if (c == ' ' || c == 'S') { ok = h < cur.size() && r < ref.size() && (cur[h] == ref[r]) == (c == ' '); h++; r++; }
    else if (c == 'I') h++; else if (c == 'D') r++; else ok = false;
    edits += c != ' ';
  }
  sx::Assert(ok && h == cur.size() && r == ref.size(), "the alignment turns the shifted sentence into the other one");
  sx::Assert(al.numEdits == edits + (int)al.allshifts.size(), "the cost is the number of reported edits and shifts");
  int d = distance(hyp, ref);
  sx::Assert(al.numEdits <= d, "shifts never make the cost worse than the edit distance");
  sx::Assert((al.numEdits == 0) == (hyp == ref), "the cost is zero exactly for equal sentences");
  sx::Assert(edits == distance(cur, ref), "the edits left after the shifts are minimal");
  sx::Assert(al.hyp == hyp && al.ref == ref && al.numWords == ref.size(), "the alignment names the sentences it aligns");
  sx::Assert(calc->WERCalculation(ref, hyp).numEdits == d, "without shifts the cost is the edit distance");
  return al.numEdits;
}
static Words words(const char *n, int len) { Words w; for (int i = 0; i < len; i++) w.push_back(std::string(1, (char)sx::Int(nm(n, i), '0', '9'))); return w; }
SX_HARNESS(ter) {
  int h = sx::Pick("hyp length", 0, sx::Q(5, 6)), r = sx::Pick("ref length", 0, std::min(sx::Q(5, 6), sx::Q(8, 9) - h));
  check(words("hyp", h), words("ref", r));
  sx::Reach("end");
}
// @reach ter shift
SX_HARNESS(shifts) {
  int n = sx::Pick("length", 5, sx::Q(6, 7)); Words ref, hyp; std::vector<int> left;
  for (int i = 0; i < n; i++) { ref.push_back(std::string(1, '0' + i)); left.push_back(i); }
  for (int i = 0; i < n; i++) { int k = i + 1 < n ? sx::Pick(nm("word", i), 0, n - 1 - i) : 0; hyp.push_back(ref[left[k]]); left.erase(left.begin() + k); }
  int bad = sx::Pick("replaced", 0, n); if (bad) hyp[bad - 1] = "x";
  int cost = check(hyp, ref); bool one = false;
  for (int s = 0; s < n; s++) for (int e = s; e < n; e++) one = one || moved(hyp, ref, s, e);
  if (!bad && one && hyp != ref) { sx::Reach("oneblock"); sx::Assert(cost == 1, "one moved block costs one shift"); }
  sx::Reach("end");
}
SX_HARNESS(measure) {
  bool inv = sx::Pick("inverse", 0, 1); EvalMeasureTer m(inv); EvalStatsPtr sum; double e = 0, w = 0;
  int pairs = sx::Pick("pairs", 1, 2);
  for (int k = 0; k < pairs; k++) {
    Sent s[2]; Words t[2];
    for (int x = 0; x < 2; x++) {
      int len = k ? x + 1 : sx::Pick(x ? "sys length" : "ref length", 0, 3);
      for (int i = 0; i < len; i++) { s[x].push_back(k ? i + x : sx::Pick(nm(x ? "sys" : "ref", i), 0, 2) * 7); std::ostringstream o; o << s[x][i]; t[x].push_back(o.str()); }
    }
    EvalStatsPtr st = ((const EvalMeasureTer &)m).CalculateStats(s[0], s[1]);
    boost::shared_ptr<TERCpp::terCalc> calc(new TERCpp::terCalc);
    double cost = calc->TER(t[1], t[0]).numEdits;
    sx::Assert(st->GetVals().size() == 2 && st->GetVals()[0] == cost && st->GetVals()[1] == s[0].size(), "the statistics are the cost and the reference length");
    EvalStatsPtr rd = m.ReadStats(st->WriteStats()); sx::Assert(rd->Equals(*st) && rd->ConvertToScore() == st->ConvertToScore(), "statistics read back as written");
    e += cost; w += s[0].size();
    if (sum) sum->PlusEquals(*st); else sum = st->Clone();
  }
  double sc = w ? e / w : 0;
  sx::Assert(sum->ConvertToScore() == (inv ? 1 - sc : sc), "the score is the summed cost over the summed reference length");
  sx::Reach("end");
}
SX_HARNESS(lengths) {
  int n = sx::Pick("long", 999, 1002), k = sx::Pick("short", 0, 2); bool swap = sx::Pick("swap", 0, 1);
  Words a(n, "a"), b(k, "b");
  boost::shared_ptr<TERCpp::terCalc> calc(new TERCpp::terCalc);
  TERCpp::terAlignment al = swap ? calc->TER(b, a) : calc->TER(a, b);
  sx::Assert(al.numEdits == n && al.allshifts.empty() && (int)al.alignment.size() == n, "unrelated sentences cost the length of the longer one");
  sx::Reach("end");
}
