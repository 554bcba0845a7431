// @sources kenlm/lm/model.cc kenlm/lm/search_hashed.cc kenlm/lm/search_trie.cc kenlm/lm/trie.cc kenlm/lm/trie_sort.cc kenlm/lm/bhiksha.cc kenlm/lm/binary_format.cc kenlm/lm/config.cc kenlm/lm/lm_exception.cc kenlm/lm/quantize.cc kenlm/lm/read_arpa.cc kenlm/lm/value_build.cc kenlm/lm/virtual_interface.cc kenlm/lm/vocab.cc kenlm/util/bit_packing.cc kenlm/util/ersatz_progress.cc kenlm/util/exception.cc kenlm/util/file.cc kenlm/util/file_piece.cc kenlm/util/mmap.cc kenlm/util/murmur_hash.cc kenlm/util/parallel_read.cc kenlm/util/pool.cc kenlm/util/read_compressed.cc kenlm/util/scoped.cc kenlm/util/string_piece.cc kenlm/util/double-conversion/double-conversion.cc kenlm/util/double-conversion/strtod.cc kenlm/util/double-conversion/bignum.cc kenlm/util/double-conversion/cached-powers.cc kenlm/util/double-conversion/diy-fp.cc kenlm/util/double-conversion/fast-dtoa.cc kenlm/util/double-conversion/fixed-dtoa.cc kenlm/util/double-conversion/bignum-dtoa.cc
// @bounds query: every model of order 3 (thorough also 2 and 4) over two words whose bigrams and trigrams are any subset (closed under prefixes) of 5 and 6 (quick 4) candidates, three settings of backoffs; six data structures, loaded from text (or, thorough, written as binary and loaded back); every sequence of 2 (thorough 4) words after the sentence start, and of one more without it
// @bounds deep: models of order 4 with all four bigrams over two words and any prefix-closed choice of four trigrams and four 4-grams; the six structures; every sequence of 4 (thorough 5) words over the two words and the unknown word after a chosen start
// @harness query quick=30 thorough=600
// @harness deep quick=40 thorough=300
#include "lm.h"
using namespace lm::ngram;
template <class M> static void query(const Arpa &a, bool binary, bool deep = false) {
  M *m; bool ok = true; m = 0; SX_NOTHROW(m = loadArpa<M>(a, binary), ok); sx::Assert(ok && m, "the model can be loaded"); int id[5]; for (int i = 0; i < 5; i++) id[i] = m->GetVocabulary().Index(WN[i]);
  sx::Assert(id[UNK] == 0 && (int)m->Order() == a.order, "unknown words have index zero");
  bool bos = sx::Pick("start", 0, 1); NG ctx; if (bos) ctx.push_back(BOS); State st = bos ? m->BeginSentenceState() : m->NullContextState(), nx;
  int n = deep ? sx::Q(3, 4) + !bos : sx::Q(2, 4) + !bos; std::vector<lm::WordIndex> rev;   // context in reverse
  if (bos) rev.push_back(id[BOS]);
  for (int i = 0; i < n; i++) {
    static const int W[] = {A, B, UNK, EOS}; int w = W[sx::Pick(nm("word", i), 0, deep ? (i == n - 1 || sx::Tier() ? 2 : 1) : i == n - 1 ? 3 : i == 0 || sx::Tier() ? 2 : 1)]; int len; double want = a.score(ctx, w, len);
    lm::FullScoreReturn r = m->FullScore(st, id[w], nx);
    sx::Assert(near(r.prob, want), "the probability is that of the backoff definition"); if (a.suffixClosed) sx::Assert(r.ngram_length == len, "the matched length is that of the longest listed n-gram");
    sx::Assert(nx.length < a.order, "states are shorter than the order"); State fg; lm::FullScoreReturn f = m->FullScoreForgotState(rev.data(), rev.data() + rev.size(), id[w], fg);
    sx::Assert(near(f.prob, want) && f.ngram_length == r.ngram_length && fg == nx, "scoring from the full context gives the same");
    rev.insert(rev.begin(), id[w]); ctx.push_back(w); State gs; m->GetState(rev.data(), rev.data() + rev.size(), gs); sx::Assert(gs == nx, "the state of a context is that reached by scoring it");
    for (int k = 0; k < nx.length; k++) { NG h(ctx.end() - k - 1, ctx.end()); sx::Assert(nx.words[k] == rev[k] && near(nx.backoff[k], a.backoff(h)) && near(gs.backoff[k], a.backoff(h)), "states hold the last words and their backoffs"); }
    st = nx;
  }
  sx::Reach("end"); if (!a.suffixClosed) sx::Reach("pruned"); delete m;
}
// @reach query pruned
// @reach deep pruned
SX_HARNESS(query) {
  int order = sx::Tier() ? sx::Pick("order", 2, 4) : 3; Arpa a = pickArpa(order, sx::Tier(), sx::Tier()); int t = sx::Pick("structure", 0, 5); bool bin = sx::Tier() && sx::Pick("binary", 0, 1);
  if (t == 0) query<ProbingModel>(a, bin); else if (t == 1) query<RestProbingModel>(a, bin); else if (t == 2) query<TrieModel>(a, bin); else if (t == 3) query<QuantTrieModel>(a, bin); else if (t == 4) query<ArrayTrieModel>(a, bin); else query<QuantArrayTrieModel>(a, bin);
}
SX_HARNESS(deep) {
  Arpa a = pickDeep(); int t = sx::Pick("structure", 0, 5);
  if (t == 0) query<ProbingModel>(a, false, true); else if (t == 1) query<RestProbingModel>(a, false, true); else if (t == 2) query<TrieModel>(a, false, true); else if (t == 3) query<QuantTrieModel>(a, false, true); else if (t == 4) query<ArrayTrieModel>(a, false, true); else query<QuantArrayTrieModel>(a, false, true);
}
