// @sources lib/rule-filter.cc lib/hyper-graph.cc lib/dict.cc lib/util.cc lib/cfg-data.cc lib/sparse-map.cc
// @bounds size: every rule with a source span inside [0,5], 0..2 disjoint variables in it (symbolic span ends), target spans of 1..2 positions that begin in a sentence of 0..4 words and may end up to two positions after it, root and inner heads, limits -1..4 on words and 0..2 on variables
// @bounds count: every score m/8, |m| <= 64, thresholds 0, 1/8, 1/2, 1, 2
// @bounds pseudo: every frontier state
// @assume target spans of the variables are disjoint and inside the target span of the head; source spans are inside the sentence, target spans begin inside it
// @harness size quick=20 thorough=60
// @harness count quick=5 thorough=5
// @harness pseudo quick=5 thorough=5
#include "hg.h"
#include <travatar/rule-filter.h>
#include <cmath>
SX_HARNESS(size) {
  int nt = sx::Pick("variables", 0, 2), len = sx::Pick("target words", 0, 4); bool root = sx::Pick("root", 0, 1); HyperNode head, tail[2]; head.SetId(root ? 0 : 7);
  int sb = sx::Int("source begin", 0, 5), se = sx::Int("source end", 0, 5); sx::Assume(sb < se); head.SetSpan(std::make_pair(sb, se));
  int hb = sx::Pick("target begin", 0, 3), he = sx::Pick("target last", 0, 5); sx::Assume(hb <= he && hb < len && he < len + 2 && (hb == 0 || !root)); std::set<int> hs; hs.insert(hb); hs.insert(he); head.SetTrgSpan(hs);
  Sentence src(5, 1), trg(len, 1); RuleEdge e(&head); int sw = se - sb, tw = root ? len : std::min(he + 1, len) - hb, pb = sb, tb = root ? 0 : hb, te = root ? len + 2 : he + 1;
  std::vector<bool> used(len + 2, false);
  for (int i = 0; i < nt; i++) {
    int b = sx::Int(nm("variable begin", i), 0, 5), n = sx::Int(nm("variable end", i), 0, 5); sx::Assume(pb <= b && b < n && n <= se); pb = n; tail[i].SetId(8 + i); tail[i].SetSpan(std::make_pair(b, n)); sw -= n - b;
    int c = sx::Pick(nm("variable target begin", i), 0, 3), d = sx::Pick(nm("variable target last", i), 0, 5); sx::Assume(tb <= c && c <= d && d < te && c < len); std::set<int> ts; ts.insert(c); ts.insert(d); tail[i].SetTrgSpan(ts);
    for (int k = c; k <= d; k++) { sx::Assume(!used[k]); used[k] = true; if (k < len) tw--; } e.AddTail(&tail[i]);
  }
  int tl = sx::Int("word limit", -1, 4), nl = sx::Int("variable limit", 0, 2); RuleSizeFilter f(tl, nl);
  bool got = f.PassesFilter(e, src, trg); sx::Assert(got == sx::And(nt <= nl, sx::And(sw <= tl, tw <= tl)), "a rule passes when its variables and its words on either side are within the limits"); sx::Reach(got ? "passes" : "blocked"); sx::Reach("end");
}
SX_HARNESS(count) {
  static const double th[] = {0, 0.125, 0.5, 1, 2}; int k = sx::Pick("threshold", 0, 4); double s = sx::Fix("score", -64, 64, 3); HyperNode head; RuleEdge e(&head); e.SetScore(s); Sentence w;
  bool got = CountFilter(th[k]).PassesFilter(e, w, w); sx::Assert(got == (k == 0 || s > std::log(th[k])), "a rule passes when its count exceeds the threshold"); sx::Reach("end");
}
SX_HARNESS(pseudo) {
  HyperNode head; RuleEdge e(&head); int k = sx::Pick("state", 0, 2); head.SetFrontier(k == 0 ? HyperNode::IS_FRONTIER : k == 1 ? HyperNode::NOT_FRONTIER : HyperNode::UNSET_FRONTIER); Sentence w;
  sx::Assert(PseudoNodeFilter().PassesFilter(e, w, w) == (k != 1), "only rules of the pseudo root are dropped"); sx::Reach("end");
}
