// @sources kenlm/lm/model.cc kenlm/lm/search_hashed.cc kenlm/lm/search_trie.cc kenlm/lm/trie.cc kenlm/lm/trie_sort.cc kenlm/lm/bhiksha.cc kenlm/lm/binary_format.cc kenlm/lm/config.cc kenlm/lm/lm_exception.cc kenlm/lm/quantize.cc kenlm/lm/read_arpa.cc kenlm/lm/value_build.cc kenlm/lm/virtual_interface.cc kenlm/lm/vocab.cc kenlm/util/bit_packing.cc kenlm/util/ersatz_progress.cc kenlm/util/exception.cc kenlm/util/file.cc kenlm/util/file_piece.cc kenlm/util/mmap.cc kenlm/util/murmur_hash.cc kenlm/util/parallel_read.cc kenlm/util/pool.cc kenlm/util/read_compressed.cc kenlm/util/scoped.cc kenlm/util/string_piece.cc kenlm/util/double-conversion/double-conversion.cc kenlm/util/double-conversion/strtod.cc kenlm/util/double-conversion/bignum.cc kenlm/util/double-conversion/cached-powers.cc kenlm/util/double-conversion/diy-fp.cc kenlm/util/double-conversion/fast-dtoa.cc kenlm/util/double-conversion/fixed-dtoa.cc kenlm/util/double-conversion/bignum-dtoa.cc
// @bounds rules: every model of order 3 (thorough also 2 and 4) over two words whose bigrams and trigrams are any subset (closed under prefixes) of 5 and 6 (quick 4) candidates, three settings of backoffs; three (thorough six) data structures; every string of 4 (thorough 5) words, with or without sentence start and end; every division of every substring into two or three parts (by induction every bracketing)
// @bounds partial: the same models and strings; every division into a left context, a middle and a right context, each revealed one word at a time in either order, and every pair of adjacent parts subsumed; order of the model 3 (thorough also 4)
// @bounds states: every two states whose left part holds 0..2 pointers (full or not) and whose right part 0..2 words, with any pointers and words (64 and 32 bits), and every third one with pointers and words up to 1; hashes of any two with pointers and words up to 1
// @harness states quick=15 thorough=100
// @harness rules quick=30 thorough=500
// @bounds deeprules, deeppartial: models of order 4 with all four bigrams over two words and any prefix-closed choice of four trigrams and four 4-grams (hashed and trie); strings of 5 words over the two words (thorough also the unknown word and the sentence end), with or without sentence start; every division as above
// @harness deeprules quick=30 thorough=300
// @harness deeppartial quick=30 thorough=300
// @harness partial quick=30 thorough=500
// @reach states equal
// @reach rules pruned
// @reach rules leftopen
// @reach partial leftopen
#include "lm.h"
using namespace lm::ngram;
static bool nearS(double a, double b) { double d = a - b; return d < 1e-6 && d > -1e-6; }
static bool same(const ChartState &a, const ChartState &b) {
  if (!(a == b) || a.left.full != b.left.full || a.Compare(b) != 0 || hash_value(a) != hash_value(b)) return false;
  for (int i = 0; i < a.right.length; i++) if (!near(a.right.backoff[i], b.right.backoff[i])) return false;
  return true;
}
struct Str { int n; bool bos; std::vector<int> w; };
static bool deep = false;
static Str pickStr(int n) {
  if (deep) { Str s; s.n = 5; s.bos = sx::Pick("start", 0, 1); bool e = sx::Tier() && sx::Pick("end", 0, 1); for (int i = 0; i < 5; i++) { static const int W[] = {A, B, UNK}; s.w.push_back(e && i == 4 ? EOS : W[sx::Pick(nm("word", i), 0, sx::Tier() && i == 2 ? 2 : 1)]); } return s; }
  Str s; s.n = n; s.bos = sx::Pick("start", 0, 1); bool eos = sx::Pick("end", 0, 1);
  for (int i = 0; i < n; i++) { static const int W[] = {A, B, UNK}; s.w.push_back(eos && i == n - 1 ? EOS : W[sx::Pick(nm("word", i), 0, i == 1 || sx::Tier() ? 2 : 1)]); }
  return s;
}
template <class M> static void rules(const Arpa &a) {
  M *m = loadArpa<M>(a, false); int id[5]; for (int i = 0; i < 5; i++) id[i] = m->GetVocabulary().Index(WN[i]);
  Str s = pickStr(sx::Q(4, 5)); int n = s.n; std::vector<std::vector<ChartState> > st(n + 1, std::vector<ChartState>(n + 1)); std::vector<std::vector<float> > pr(n + 1, std::vector<float>(n + 1));
  for (int i = 0; i < n; i++) for (int j = i + 1; j <= n; j++) {
    RuleScore<M> r(*m, st[i][j]); bool b = s.bos && i == 0; if (b) r.BeginSentence(); for (int k = i; k < j; k++) r.Terminal(id[s.w[k]]); pr[i][j] = r.Finish();
    // with the sentence start (or in a model without rest costs) the sum is that of the definition
    if (b || !std::is_same<M, RestProbingModel>::value) { double want = 0; NG c; if (b) c.push_back(BOS); for (int k = i; k < j; k++) { int l; want += a.score(c, s.w[k], l); c.push_back(s.w[k]); } sx::Assert(nearS(pr[i][j], want), "the score of a string is the sum over its words"); }
    State right = b ? m->BeginSentenceState() : m->NullContextState(), nx; for (int k = i; k < j; k++) { m->FullScore(right, id[s.w[k]], nx); right = nx; } sx::Assert(st[i][j].right == right, "the right state is that of scoring left to right"); 
    if (!st[i][j].left.full) { sx::Reach("leftopen"); sx::Assert(st[i][j].left.length == j - i && !b, "an open left state holds every word"); }
  }
  for (int i = 0; i < n; i++) for (int j = i + 2; j <= n; j++) for (int k = i + 1; k < j; k++) for (int l = k; l < j; l++) {
    // parts i..k, k..l, l..j (the middle one may be empty); words as terminals or as phrases
    int p[] = {i, k, l, j}; for (int mask = 0; mask < 8; mask++) { bool skip = false; for (int q = 0; q < 3; q++) if ((mask >> q & 1) && p[q + 1] - p[q] != 1) skip = true; if (skip) continue;
      if (s.bos && i == 0 && (mask & 1) == 0) { // a phrase that begins the sentence
        ChartState o; RuleScore<M> r(*m, o); r.BeginNonTerminal(st[p[0]][p[1]], pr[p[0]][p[1]]); for (int q = 1; q < 3; q++) { if (p[q] == p[q + 1]) continue; if (mask >> q & 1) r.Terminal(id[s.w[p[q]]]); else r.NonTerminal(st[p[q]][p[q + 1]], pr[p[q]][p[q + 1]]); } float f = r.Finish();
        sx::Assert(nearS(f, pr[i][j]), "the score does not depend on the bracketing"); sx::Assert(same(o, st[i][j]), "the state does not depend on the bracketing"); continue; }
      ChartState o; RuleScore<M> r(*m, o); if (s.bos && i == 0) r.BeginSentence();
      for (int q = 0; q < 3; q++) { if (p[q] == p[q + 1]) continue; if (mask >> q & 1) r.Terminal(id[s.w[p[q]]]); else r.NonTerminal(st[p[q]][p[q + 1]], pr[p[q]][p[q + 1]]); } float f = r.Finish();
      sx::Assert(nearS(f, pr[i][j]), "the score does not depend on the bracketing"); sx::Assert(same(o, st[i][j]), "the state does not depend on the bracketing");
      if (!(mask & 1) && !(s.bos && i == 0)) { ChartState o2; RuleScore<M> r2(*m, o2); r2.BeginNonTerminal(st[p[0]][p[1]], pr[p[0]][p[1]]); for (int q = 1; q < 3; q++) { if (p[q] == p[q + 1]) continue; if (mask >> q & 1) r2.Terminal(id[s.w[p[q]]]); else r2.NonTerminal(st[p[q]][p[q + 1]], pr[p[q]][p[q + 1]]); } float f2 = r2.Finish(); sx::Assert(nearS(f2, pr[i][j]) && same(o2, st[i][j]), "beginning with a phrase is the same"); }
      if (s.bos && i == 0) { ChartState ob; RuleScore<M> rb(*m, ob); rb.BeginSentence(); std::vector<ChartState> sub(3); for (int q = 0; q < 3; q++) { if (p[q] == p[q + 1]) continue; float f3 = 0; { RuleScore<M> rs(*m, sub[q]); for (int x = p[q]; x < p[q + 1]; x++) rs.Terminal(id[s.w[x]]); f3 = rs.Finish(); } rb.NonTerminal(sub[q], f3); } float f4 = rb.Finish(); sx::Assert(nearS(f4, pr[i][j]) && same(ob, st[i][j]), "phrases after the sentence start are the same"); }
    }
  }
  sx::Reach("end"); if (!a.suffixClosed) sx::Reach("pruned"); delete m;
}
static ChartState pickState(int i, bool wide) {
  ChartState s; memset(&s, 0xA5 + i, sizeof(s)); s.left.length = sx::Pick(nm("pointers", i), 0, 2); s.left.full = sx::Pick(nm("full", i), 0, 1); s.right.length = sx::Pick(nm("words", i), 0, 2);
  for (int k = 0; k < s.left.length; k++) s.left.pointers[k] = wide ? (uint64_t)sx::Int64(nm("pointer", i), INT64_MIN, INT64_MAX) : sx::Int(nm("pointer", i), 0, 1);
  for (int k = 0; k < s.right.length; k++) { s.right.words[k] = wide ? (uint32_t)sx::Int64(nm("state word", i), 0, 4294967295LL) : sx::Int(nm("state word", i), 0, 1); s.right.backoff[k] = -k; }
  return s;
}
// the pointers of a left state lead from one to the next, so that the last one stands for all
static bool sameContext(const ChartState &a, const ChartState &b) {
  bool e = (a.left.length == b.left.length) & (a.left.full == b.left.full) & (a.right.length == b.right.length); if (!e) return false;
  if (a.left.length) e = sx::And(e, a.left.pointers[a.left.length - 1] == b.left.pointers[b.left.length - 1]);
  for (int k = 0; k < a.right.length; k++) e = sx::And(e, a.right.words[k] == b.right.words[k]);
  return e;
}
static int sign(int x) { return x < 0 ? -1 : x > 0; }
SX_HARNESS(states) {
  int kind = sx::Pick("kind", 0, 2); ChartState a = pickState(0, kind == 0), b = pickState(1, kind == 0);
  if (kind < 2) {
    bool e = sameContext(a, b); int ab = sign(a.Compare(b)), ba = sign(b.Compare(a));
    sx::Assert((a == b) == e, "states are equal exactly when they stand for the same context");
    sx::Assert(sx::And((ab == 0) == e, ab == -ba), "the comparison of states is zero exactly for equal ones and changes sign when they are swapped");
    sx::Assert(sx::And((a < b) == (ab < 0), (a.left < b.left) == (a.left.Compare(b.left) < 0)), "the order of states is that of the comparison");
    sx::Assert(sx::And((a.right < b.right) == (a.right.Compare(b.right) < 0), sx::And((a.left == b.left) == (a.left.Compare(b.left) == 0), (a.right == b.right) == (a.right.Compare(b.right) == 0))), "the parts of states are ordered alike");
    if (kind == 1) { for (int i = 0; i < 2; i++) { ChartState &s = i ? b : a; for (int k = 0; k < s.left.length; k++) s.left.pointers[k] = sx::Conc(s.left.pointers[k]); for (int k = 0; k < s.right.length; k++) s.right.words[k] = sx::Conc(s.right.words[k]); }
      if (sameContext(a, b)) { sx::Reach("equal"); sx::Assert(hash_value(a) == hash_value(b) && hash_value(a.left) == hash_value(b.left) && hash_value(a.right) == hash_value(b.right), "equal states have the same hash"); }
      else sx::Assert(hash_value(a) != hash_value(b), "different small states have different hashes"); }
  } else {
    ChartState c = pickState(2, false); sx::Assert(!sx::And(sx::And(a < b, b < c), !(a < c)), "the order of states is transitive");
  }
  ChartState z = a; z.ZeroRemaining(); bool zero = true; for (int k = a.left.length; k < KENLM_MAX_ORDER - 1; k++) zero = sx::And(zero, z.left.pointers[k] == 0); for (int k = a.right.length; k < KENLM_MAX_ORDER - 1; k++) zero = sx::And(zero, sx::And(z.right.words[k] == 0, z.right.backoff[k] == 0));
  sx::Assert(sx::And(zero, z == a), "zeroing the unused rest keeps a state");
  sx::Reach("end");
}
template <class M> static void partial(const Arpa &a) {
  M *m = loadArpa<M>(a, false); int id[5]; for (int i = 0; i < 5; i++) id[i] = m->GetVocabulary().Index(WN[i]);
  Str s = pickStr(sx::Q(4, 5)); int n = s.n; std::vector<int> w; for (int i = 0; i < n; i++) w.push_back(id[s.w[i]]);
  struct L { static float frag(M &m, const Str &s, const std::vector<int> &w, int i, int j, ChartState &o) { RuleScore<M> r(m, o); if (s.bos && i == 0) r.BeginSentence(); for (int k = i; k < j; k++) r.Terminal(w[k]); return r.Finish(); } };
  ChartState all; float full = L::frag(*m, s, w, 0, n, all);
  for (int x = 0; x < n; x++) for (int y = x + 1; y <= n; y++) {
    if (x == 0 && s.bos) continue;   // the middle part has no sentence start of its own
    ChartState bs, as, ms; float pb = L::frag(*m, s, w, 0, x, bs), pm = L::frag(*m, s, w, x, y, ms), pa = L::frag(*m, s, w, y, n, as); bool bfull = bs.left.full;
    if (y == n) { as.left.full = false; as.left.length = 0; as.right.length = 0; pa = 0; } if (x == 0) { bs.right.length = 0; bfull = false; pb = 0; }
    for (int order = 0; order < 3; order++) {   // left context first, right context first, alternating
      ChartState c = ms; float got = 0; int b = 0, e = 0; Right br = bs.right; Left al = as.left; al.full = false; bool doneB = false, doneE = false;
      while (!doneB || !doneE) {
        bool left = order == 0 ? !doneB : order == 1 ? doneE : (doneE || (!doneB && b <= e));
        if (left) { if (b < bs.right.length) { br.length = ++b; got += RevealBefore(*m, br, b - 1, false, c.left, c.right); } else { doneB = true; if (bfull) { br.length = b; got += RevealBefore(*m, br, b, true, c.left, c.right); } } }
        else { if (e < as.left.length) { al.length = ++e; got += RevealAfter(*m, c.left, c.right, al, e - 1); } else { doneE = true; if (as.left.full) { al.full = true; al.length = e; got += RevealAfter(*m, c.left, c.right, al, e); } } }
      }
      sx::Assert(nearS(full, got + pb + pm + pa), "revealing context adjusts by what the context makes");
      sx::Assert(c.left.length < a.order && c.right.length < a.order, "revealed states are shorter than the order");
      if (y == n) { sx::Assert(c.right == all.right, "revealing what precedes gives the right state of the whole"); for (int k = 0; k < c.right.length; k++) sx::Assert(near(c.right.backoff[k], all.right.backoff[k]), "revealing what precedes gives the backoffs of the whole"); }
      if (x == 0) sx::Assert(c.left == all.left && c.left.full == all.left.full, "revealing what follows gives the left state of the whole");
      if (!ms.left.full) sx::Reach("leftopen");
    }
    // all of one side at once
    { ChartState c = ms; float got = 0; if (bs.right.length || bfull) got += RevealBefore(*m, bs.right, 0, bfull, c.left, c.right); if (as.left.length || as.left.full) got += RevealAfter(*m, c.left, c.right, as.left, 0); sx::Assert(nearS(full, got + pb + pm + pa), "revealing a whole side adjusts by what the context makes"); }
    // two adjacent parts, one next to the other or with the second joined after revealing
    if (x > 0) { ChartState f = bs, g = ms, w2; float pw = L::frag(*m, s, w, 0, y, w2), adj = Subsume(*m, f.left, f.right, g.left, g.right, 0); sx::Assert(nearS(pw, pb + pm + adj), "subsuming adds what the adjacency makes");
      ChartState j; j.left = f.left; j.right = g.right; sx::Assert(same(j, w2), "subsuming gives the state of the joined parts"); }
  }
  sx::Reach("end"); delete m;
}
SX_HARNESS(rules) {
  int order = sx::Tier() ? sx::Pick("order", 2, 4) : 3; Arpa a = pickArpa(order, sx::Tier(), 2); int t = sx::Pick("structure", 0, sx::Q(2, 5));
  if (t == 0) rules<ProbingModel>(a); else if (t == 1) rules<RestProbingModel>(a); else if (t == 2) rules<TrieModel>(a); else if (t == 3) rules<QuantTrieModel>(a); else if (t == 4) rules<ArrayTrieModel>(a); else rules<QuantArrayTrieModel>(a);
}
SX_HARNESS(partial) {
  int order = sx::Tier() ? sx::Pick("order", 2, 4) : 3; Arpa a = pickArpa(order, sx::Tier(), 2); int t = sx::Pick("structure", 0, sx::Q(2, 5));
  if (t == 0) partial<ProbingModel>(a); else if (t == 1) partial<RestProbingModel>(a); else if (t == 2) partial<TrieModel>(a); else if (t == 3) partial<QuantTrieModel>(a); else if (t == 4) partial<ArrayTrieModel>(a); else partial<QuantArrayTrieModel>(a);
}
// longer histories: states of three words
SX_HARNESS(deeprules) { deep = true; Arpa a = pickDeep(); if (sx::Pick("structure", 0, 1)) rules<TrieModel>(a); else rules<ProbingModel>(a); }
SX_HARNESS(deeppartial) { deep = true; Arpa a = pickDeep(); if (sx::Pick("structure", 0, 1)) partial<TrieModel>(a); else partial<ProbingModel>(a); }
