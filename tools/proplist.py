P('C01', 'n-best derivations of a forest are exact', 'For every acyclic hypergraph, requesting the n best derivations returns min(n, number of derivations) pairwise different derivations of the graph, each scored with the sum of its edge scores, in non-increasing order of score, and no derivation left out scores higher than one returned. A shorter list is a prefix of a longer one, and asking for unique translations returns the best derivation of each of the n best distinct translations, no translation twice.',
  I, 'every hypergraph topology, every edge score, every n', 'tests check a handful of fixed graphs; the lazy k-best search is order- and tie-sensitive over all topologies and scores', 'lib/hyper-graph.cc include/travatar/hyper-graph.h',
  [('lazy k-best', 'HyperNode::LazyKthBest, HyperNode::GetScoreAndBest / HyperGraph::GetNbest'), ('Viterbi', 'HyperNode::CalcViterbiScore')])
P('C02', 'inside-outside normalisation yields edge posteriors', 'Normalising an acyclic forest replaces each edge score by the log posterior probability of that edge under the distribution over derivations defined by the edge scores, so that edge posteriors of every node sum to the posterior of the node and the root sums to one. Unreachable parts get zero probability.',
  I, 'every topology and every score', 'one fixed three-node graph is tested', 'lib/hyper-graph.cc', [('inside-outside', 'HyperGraph::InsideOutsideNormalize')])
P('C03', 'Trees survive being written and read (Penn, rule form, word lists)', 'Writing a single-derivation tree in Penn treebank form or in rule form and reading it back gives an identical tree (words, labels, spans, node and edge numbers in order of the text), several trees in one stream are read one after the other, and writing again gives the same bytes; the XML form nests the same labels and words, escaped. Text that is not a well-formed bracketed tree (unbalanced or missing parentheses, empty labels, stray words) is never read as a tree: it is rejected, or reported as the end of input when it ends inside a tree. A plain line of words is read as the flat tree over its words.',
  I, 'every tree shape, every label and word text', 'a few literal trees are tested', 'lib/tree-io.cc lib/io-util.cc', [('Penn reader/writer', 'PennTreeIO::ReadTree/WriteTree'), ('token readers', 'ExpectChar, ReadUntil, ReadWhitespace')])
P('C04', 'JSON and Egret forest formats preserve the forest', 'Writing any forest (several edges per node, features, target words and variables, scores) as JSON and reading it back gives a forest with the same words, nodes, labels, spans, edges, tails, features, target words and variables, and scores (to six digits), whatever characters labels, words and feature names contain, and writing that again gives the same text; truncated text, missing fields and node numbers out of range are rejected. Writing a forest in Egret form and reading it back gives the same nodes, spans and edges in the same order, each word position having its own terminal; scores are kept or, when normalising, become log probabilities over the edges of each node in the same ratios. Forests in one stream are read one after the other, failed parses keep their words, and lines that are not of the form node => nodes ||| score are rejected.',
  I, 'every forest topology and every attribute value', 'two literal forests are tested', 'lib/tree-io.cc lib/hyper-graph.cc lib/io-util.cc', [('JSON reader/writer', 'JSONTreeIO::ReadTree/WriteTree'), ('Egret reader', 'EgretTreeIO::ReadTree')])
P('C05', 'text to ids and back round trips (words, annotations, features, escapes)', 'Parsing any line of words, any annotated target side with quoted words and xN:LABEL variables (in one or several factors separated by vertical bars), or any sparse feature list, and printing the result, gives the canonical spelling of the same content; printing then parsing any in-memory value (with non-empty words and labels without blanks) gives that value back. JSON, XML and quote escaping can be undone on every string, and malformed quoting, bad variables or feature tokens without a value raise an error.',
  I, 'every byte string up to the bound', 'tests use a few literals; quoting, escapes and variable syntax interact per byte', 'lib/dict.cc lib/sparse-map.cc lib/cfg-data.cc', [('parse/print', 'Dict::ParseWords, ParseAnnotatedWords, PrintAnnotatedWords, ParseSparseVector, PrintSparseVector, WriteJSONString/QuoteString')])
P('C06', 'tree-to-string rules are consistent with the word alignment', 'For every source tree, target sentence and word alignment, each extracted minimal rule covers a source node whose aligned target span does not overlap the alignments of words outside it, its source side is the tree fragment from there to the next such nodes, which become variables numbered from left to right, and its target side is exactly the words of its span with the spans of those nodes replaced by the same variables. With unaligned words attached to the top, composing the rules from the root reproduces the target sentence; exhaustive attachment gives exactly the non-overlapping extensions within its limit. Links outside the target sentence are rejected.',
  I, 'every tree shape, alignment and target length', 'tests use three hand-made sentences', 'lib/forest-extractor.cc lib/alignment.cc lib/hyper-graph.cc', [('span propagation, frontier, fragments', 'ForestExtractor::ExtractMinimalRules, AttachNullsTop, AttachNullsExhaustive, RuleExtractor::RuleToString, HyperNode::CalculateFrontier')])
P('C07', 'hierarchical phrase extraction is consistent and complete', 'For every sentence pair and alignment, the set of extracted initial phrases is the set of source/target span pairs within the length limit in which at least one link lies inside and no link leaves the box (unaligned words anywhere included). The hierarchical rules are exactly those obtained from the phrase with the shortest target side of each source span by replacing none, one or two disjoint such phrases inside it by variables numbered identically on both sides in source order, keeping those with at least one and at most the allowed number of words on each side and no adjacent source variables; each carries the links between its words. Links outside the sentences are rejected.',
  I, 'every alignment matrix up to the bound', 'tests enumerate two sentence pairs', 'lib/hiero-extractor.cc lib/alignment.cc', [('phrase extraction', 'HieroExtractor::ExtractPhrase, IsTerritoryOverlapping, ParseRulesBaseOnSpan')])
P('C08', 'binarisation preserves the language and the scores of a forest', 'For every forest whose edges have tails, binarising it (left, right, or all ways, left and right with or without moving punctuation) gives a forest in which no edge has more than two tails (except that the exhaustive binariser leaves edges with more than 7 tails alone), which keeps the words, the root, and the spans and labels of all original nodes, and whose derivations, after contracting the introduced nodes, are exactly the original derivations with the same total score and features (the exhaustive binariser may give an original derivation several times; it splits off the first child and the last child, each once, at every step). At every step the left and right binarisers split off the last and the first child; when they move punctuation, punctuation at the other end is split off instead; the nodes they introduce carry the label of the head of the edge with an apostrophe added.',
  I, 'every forest topology, labels and scores', 'tests compare single literal trees', 'lib/binarizer-directional.cc lib/binarizer-cky.cc lib/binarizer.cc', [('binarisation', 'BinarizerDirectional::TransformGraph, BinarizerCKY::TransformGraph')])
P('C09', 'n-best trimming keeps exactly the edges of the n best derivations', 'Trimming a forest to n best keeps exactly the nodes and edges used by its n best derivations (plus the root), keeps their scores, labels, spans and order of tails, and renumbers them consistently, so that the n-best list of the trimmed forest has the same scores as that of the original. The original forest is left unchanged.',
  I, 'every forest topology and scores, every n', 'one literal forest is tested', 'lib/trimmer.cc lib/trimmer-nbest.cc lib/hyper-graph.cc', [('trim', 'Trimmer::TransformGraph, TrimmerNbest::FindActive')])
P('C10', 'rule table lookup finds exactly the matching rules', 'For every rule table and parse forest, the decoder attaches to each node exactly the rules whose source side matches a tree fragment rooted there, once per way of matching, with the variables of the fragment as tails in source order and the features of the matched forest edges added to those of the rule; a node with no matching rule gets an unknown rule for each of its edges, over the phrases among its children (or over its word). Rules may come in any order in the table file. The in-memory and the compressed (trie) table give the same result.',
  I, 'every rule set and forest up to the bound', 'a fixed table and trees are tested', 'lib/lookup-table.cc lib/lookup-table-hash.cc lib/lookup-table-marisa.cc', [('matching', 'LookupTable::LookupSrc, LookupTableHash::MatchNode, LookupTableMarisa::MatchNode, LookupTable::TransformGraphSrc')])
P('C11', 'string-to-tree lookup builds exactly the parses of the grammar', 'For every grammar of flat rules without unary cycles and every input sentence, the forest built for the sentence contains exactly the rule applications that an exhaustive chart parser finds (each variable covering at most the span limit) and that the start symbol over the whole sentence reaches: one node for each span and pair of source and target labels, the start symbol first, tails in source order, rule features kept, and an unknown-word rule exactly for the unknown symbol over a single word that nothing else derives. Without a parse the forest is empty. Grammars with unary cycles and rules with unlabelled, unordered or unmatched variables or an empty source side are rejected.',
  I, 'every grammar and sentence up to the bound', 'tests use three fixed grammars', 'lib/lookup-table-fsm.cc lib/rule-fsm.cc', [('CKY+ over rule tries', 'LookupTableFSM::TransformGraph, BuildHyperGraphComponent, RuleFSM')])
P('C12', 'language model intersection gives each translation its LM score', 'After composing a forest with an n-gram language model by exhaustive bottom-up search, the score of each complete derivation equals its rule score plus the weighted LM log-probability of its target string with sentence boundaries (and unknown-word penalty), the features record exactly that LM value, and the best derivation is the best one over all derivations of the original forest; with incremental search every returned derivation also has its true score.',
  I, 'every forest, every LM and every pop limit up to the bound', 'one fixed LM and forest is tested', 'lib/lm-composer.cc lib/lm-composer-bu.cc lib/lm-composer-incremental.cc lib/lm-func.cc', [('cube pruning with LM states', 'LMComposerBU::TransformGraph, LMFunc::CalcNontermScore, LMComposerIncremental::TransformGraph')])
P('C13', 'extraction filters keep exactly the rules within their limits', 'The filters applied to extracted rules keep exactly the rules they describe: the size filter those whose variables and whose words (positions of the source span and of the target span, clipped to the sentence, that no variable covers) are each within the limits, the count filter those whose log count exceeds the log threshold (all when there is no threshold), and the pseudo-node filter those not headed by the pseudo root.',
  I, 'every rule, span, score and limit up to the bound', 'no unit test covers the filters', 'lib/rule-filter.cc include/travatar/rule-filter.h', [('filters', 'RuleSizeFilter, CountFilter, PseudoNodeFilter PassesFilter')])
P('C14', 'BLEU statistics and score follow the definition', 'For every reference and hypothesis (and every set of sentences) the BLEU statistics are the clipped n-gram matches, the hypothesis n-gram totals and the reference length of the definition, and the score is the geometric mean of the n-gram precisions times the brevity penalty with the configured smoothing and averaging; it lies in [0,1] and equals 1 for identical non-trivial sentences. The score of a corpus is computed from the summed statistics, and statistics computed through the n-gram cache equal those computed afresh.',
  I, 'all sentence pairs up to the bound', 'a few literal sentences are tested', 'lib/eval-measure-bleu.cc include/travatar/eval-measure-bleu.h', [('n-gram counting', 'EvalMeasureBleu::ExtractNgrams, CalculateStats, ConvertToScore')])
P('C15', 'WER, TER, RIBES, zero-one and NIST follow their definitions', 'For every pair of sentences, word error rate is the word-level Levenshtein distance over the reference length, zero-one is exact equality, RIBES is the rank correlation of the matched words times its precision and brevity penalties and lies in [0,1], TER never exceeds WER and never goes below the number of words without a counterpart, and NIST is the information-weighted n-gram precision times its length penalty. Identical sentences have no errors under WER, TER and zero-one, and no input crashes or yields a value that is not a number.',
  I, 'all sentence pairs up to the bound', 'a few literal sentences are tested', 'lib/eval-measure-wer.cc lib/eval-measure-ribes.cc lib/eval-measure-ter.cc lib/eval-measure-zeroone.cc', [('distance tables', 'EvalMeasureWER::EditDistance, EvalMeasureRibes::CalculateStats')])
P('C16', 'evaluation statistics add up and survive serialisation', 'For every evaluation measure, statistics form a commutative group under addition and scaling: the order in which sentence statistics are summed never matters, adding then subtracting restores the value, and equality is an equivalence consistent with that. Writing the statistics as an id string and reading them back gives equal statistics and the same score.',
  ['inputs', 'histories'], 'all statistics values and all orders', 'tests sum one pair', 'include/travatar/eval-measure.h lib/eval-measure.cc lib/eval-measure-interp.cc lib/eval-measure-adv-interp.cc', [('stats algebra', 'EvalStatsMean, EvalStatsBleu, EvalStatsInterp: PlusEquals, TimesEquals, ConvertToString, ReadFromString')])
P('C17', 'sparse vectors behave as vectors', 'Sparse vectors and maps behave as mathematical vectors: addition, subtraction, scaling, dot product, negation and construction from pair lists (including repeated keys) give at every coordinate the value computed coordinate by coordinate, whatever order the pairs were given in and however the operands were built up.',
  ['inputs', 'histories'], 'all vectors and operation sequences up to the bound', 'tests sample a few literals', 'lib/sparse-map.cc include/travatar/sparse-map.h', [('merge loops', 'SparseVector operators, SparsePairComparator')])
P('C18', 'online weight updates follow their update rules', 'After any sequence of updates, the perceptron weights are the starting weights plus the (rate-scaled) better-minus-worse feature differences of the updates whose worse candidate did not score lower, clamped to their ranges and, with L1, shrunk towards zero once per update call after they exist; the delayed perceptron gives the same sums only in its final weights; averaged weights are the mean over all updates of the weights moved whenever the worse candidate evaluates worse; the adaptive-gradient learner adds rate times difference over the root of the summed squared differences of that feature when the margin is violated. None of this depends on when weights are looked at or final weights are asked for. Adjusting on an n-best list compares the candidate with the best evaluation (against its best reference) with the one of best score (minus scaled evaluation), or with the first one for pairwise learners; sampled pairwise updates (PRO) use at most 50 pairs, each in order of evaluation, different enough, widest first.',
  ['inputs', 'histories'], 'all update sequences up to the bound', 'one or two literal sequences are tested', 'lib/weights.cc lib/weights-perceptron.cc lib/weights-average-perceptron.cc lib/weights-pairwise.cc lib/weights-online-pro.cc lib/weights-adagrad.cc', [('updates', 'Weights::Adjust, WeightsPerceptron::Update, WeightsAveragePerceptron::GetCurrent, WeightsAdagrad::Update')])
P('C19', 'error-rate line search finds the true optimum along the line', 'The upper envelope of a set of score lines (from an n-best list, or from one or several forests by envelope algebra) gives, for every step length, the evaluation statistics of a highest-scoring candidate at that step (scaled by the multiplier of the example), in segments of increasing slope that cover the line. The line search over a tuning set returns a step in the allowed range, the corpus score before (at step zero) and after it, and no step in the range has a better score. Greedy tuning by such searches never ends with a worse score than it started with, reports the score of the weights it returns (normalised), and no change of a single weight gives a better one. The range of steps of a direction is exactly the steps that keep every weight it moves in its range.',
  I, 'all candidate lists, lines and scores up to the bound', 'one literal hull is tested', 'lib/mert-geometry.cc lib/tune-mert.cc lib/tuning-example-nbest.cc lib/tuning-example-forest.cc', [('envelope', 'ConvexHull construction, SortSegments, MertHull'), ('line search', 'TuneMert::LineSearch')])
P('C20', 'arithmetic query expressions evaluate correctly', 'Every arithmetic expression built from numbers, single capital-letter variables, + - * / and parentheses (with blanks anywhere between them) evaluates to the value its usual precedence and left-to-right grouping give, for every assignment of the variables, and malformed expressions (unbalanced parentheses, missing operands or operators, unknown names or characters) are rejected.',
  I, 'all expressions up to the bound, all variable values', 'a few literal expressions are tested', 'lib/math-query.cc include/travatar/math-query.h', [('parser/evaluator', 'MathQuery parse and Evaluate')])
P('C21', 'command lines and configuration files set exactly what they say', 'Parsing any command line of known options sets each named option to its last given value (true when no value follows), leaves every other option at its default, and passes the remaining words as main arguments in order; unknown options, too many or too few arguments, and values that are not of the requested type are rejected. A configuration file sets exactly the options it lists and malformed files are rejected; values set by the program are read back unchanged.',
  ['inputs', 'configurations'], 'all argument lists up to the bound', 'no unit test covers option parsing', 'lib/config-base.cc include/travatar/config-base.h', [('option parsing', 'ConfigBase::ParseConfig/LoadConfig/GetInt/GetReal/GetBool')])
P('C22', 'collected output appears in input order', 'Whatever order parallel workers finish in, the collected standard output and error of all tasks is written in increasing task order, each exactly once, and nothing is held back once every earlier task has been written.',
  ['schedules', 'histories'], 'all completion orders up to the bound', 'no test exercises the collector with out-of-order completion', 'lib/output-collector.cc include/travatar/output-collector.h', [('reordering buffer', 'OutputCollector::Write')])
P('C23', 'the thread pool runs every submitted task exactly once', 'Every task submitted to the pool is run at most once, and exactly once when the pool is stopped with the wait-for-queue option, which returns only when all submitted tasks have finished; waiting for the pool returns only when every task submitted before has finished. The queue never outgrows its limit, one worker runs tasks in the order of their submission, a task is deleted (when the pool owns it) only after it has run, and after stopping every submission is refused with an error. No interleaving of submitters, workers, waiting and stopping deadlocks.',
  ['schedules'], 'all interleavings up to a bound on interruptions', 'no schedule exploration exists', 'lib/thread-pool.cc include/travatar/thread-pool.h', [('queue and condition variables', 'ThreadPool::Run, Submit, Wait, Stop')])
P('C24', 'bit packing reads back what was written', 'Packed integers of every supported width and floats of every packed form, written at any bit offset, are read back exactly, and writing one field leaves all other bits untouched.',
  I, 'all values, widths and offsets', 'tests sample a few values and widths', 'kenlm/util/bit_packing.hh kenlm/util/bit_packing.cc', [('packing', 'ReadInt25/57, WriteInt25/57, ReadFloat31/32, WriteNonPositiveFloat31')])
P('C25', 'hash tables behave as maps', 'The fixed and the auto-growing probing hash tables behave as maps from key to value under every sequence of insertions, insert-or-find, lookups and growth: an inserted key is found with its value, an absent key is not found, the size is the number of distinct keys, iteration visits each once, and over-filling is reported.',
  ['inputs', 'histories'], 'all key sequences up to the bound, including all collision patterns', 'tests insert a few fixed keys', 'kenlm/util/probing_hash_table.hh', [('probing', 'ProbingHashTable, AutoProbing')])
P('C26', 'searches in sorted arrays find exactly the present keys', 'Interpolation and binary search over any sorted array return the position of the key if and only if it is present, for every key, including values below, above and between the entries and repeated values; bounded searches stay within the array.',
  I, 'all sorted arrays and keys up to the bound', 'random sampling tests only', 'kenlm/util/sorted_uniform.hh', [('search', 'BoundedSortedUniformFind, SortedUniformFind, BinaryFind')])
P('C27', 'joint sorting permutes keys and values together', 'Sorting a key array jointly with a value array leaves the keys in order and every value attached to the key it started with; sorting fixed-size records through the sized iterators yields an ordered permutation of the records.',
  I, 'all arrays up to the bound', 'three literal arrays are tested', 'kenlm/util/joint_sort.hh kenlm/util/sized_iterator.hh kenlm/util/proxy_iterator.hh', [('proxy iterators', 'JointSort, JointProxy, SizedProxy')])
P('C28', 'language model queries follow the backoff definition', 'For every n-gram model and every word sequence, the probability the loaded model assigns to a word after a context and the state it returns are those of the backoff recursion over the entries of the model file (the matched length too when every suffix of a listed n-gram is listed); scoring from a returned state equals scoring from the full context. This holds for every data structure (hash based, trie, quantised and array-compressed without loss) alike.',
  I, 'all query sequences and backoff values up to the bound', 'one fixed model and a few sentences are tested', 'kenlm/lm/model.cc kenlm/lm/search_hashed.cc kenlm/lm/search_hashed.hh', [('backoff', 'GenericModel::FullScore, ScoreExceptBackoff, ResumeScore, InternalUnRest')])
P('C29', 'chart states and partial scores are associative', 'Scoring a target string in pieces, in any bracketing and from either direction, and combining the pieces, gives the same total score and the same final state as scoring it left to right; extending a partial left or right state adjusts by exactly the amount that the full context makes. States compare equal (and hash alike) exactly when they stand for the same context, and their order is total.',
  I, 'all strings and bracketings up to the bound', 'one fixed sentence is tested by samples', 'kenlm/lm/left.hh kenlm/lm/partial.hh kenlm/lm/state.hh', [('rule scoring', 'RuleScore::Terminal/NonTerminal, ExtendLeft, Subsume')])
P('C30', 'line and token reading loses nothing', 'Splitting text with a token iterator (single character, string, any of several characters, character table; with or without skipping empty tokens) yields exactly the pieces between delimiters, and reading a file or stream through FilePiece character by character, line by line, token by token, word by word within a line or number by number (in any mixture) yields exactly the characters, lines, tokens, words and values of the text, in order and without loss or repetition, whatever the buffer size, the chunking of the underlying reads and whether the file is mapped, read or falls back from one to the other; empty pieces, a missing final newline and carriage returns are kept, and the end of input is reported exactly when nothing is left.',
  I, 'all byte strings up to the bound and all buffer boundaries', 'two fixed files are tested', 'kenlm/util/tokenize_piece.hh kenlm/util/file_piece.cc kenlm/util/string_piece.hh', [('iterators', 'TokenIter, SingleCharacter, AnyCharacter, FilePiece::ReadLine/ReadDelimited')])
P('C31', 'succinct bit vectors answer rank and select exactly', 'For every bit sequence, rank at every position and select of every zero or one bit, in the built index, equal the values obtained by counting, also after saving and loading; packed integer vectors return every stored value.',
  I, 'all bit patterns of sampled lengths including block boundaries', 'the bundled library has no test in the suite', 'marisa/marisa/grimoire/vector/bit-vector.cc marisa/marisa/grimoire/vector/bit-vector.h marisa/marisa/grimoire/vector/flat-vector.h', [('rank/select index', 'BitVector::rank0/rank1/select0/select1')])
P('C32', 'the compressed string trie is a bijection between its keys and ids', 'A trie built from any set of keys (with any tail, cache and node order option) finds every key of the set and no other string, gives distinct ids 0..n-1, maps each id back to its key, enumerates exactly the keys that are prefixes of (or extend) a query, and behaves the same after being saved and loaded.',
  I, 'all key sets up to the bound', 'not in the test suite', 'marisa/marisa/trie.cc marisa/marisa/grimoire/trie/louds-trie.cc', [('LOUDS trie', 'LoudsTrie::build, lookup, reverse_lookup, common_prefix_search, predictive_search')])
P('C33', 'shift-based edit distance is a true alignment cost', 'The translation edit computation returns a cost equal to the insertions, deletions, substitutions and shifts of the alignment it reports, never worse than the shift-free edit distance, zero exactly for equal sentences, and its reported operations transform one sentence into the other. A sentence made from different words by moving one block costs a single shift.',
  I, 'all sentence pairs up to the bound', 'one sentence pair is tested through the measure', 'tercpp/tercalc.cpp tercpp/terAlignment.cpp', [('beam edit distance with shifts', 'terCalc::TER, calculate_best_shift, minEditDist')])
P('C34', 'Penn tokenisation only inserts spaces and spells brackets', 'Tokenising any line keeps every non-space character of the text in order, apart from the documented replacements of brackets (spelled out) and quotation marks (directed) and the writing of an ellipsis or dash of its own in ASCII (contractions such as cannot are split); it never emits empty tokens; question and exclamation marks and angle brackets are tokens of their own, commas and colons touch nothing but digits; of a word of letters and periods, exactly a single final period is split off, unless the word is a known abbreviation. The number of spaces between words makes no difference, the sentence form has the same tokens as the text form, and without a tokenizer a line is left as it is.',
  I, 'all lines up to the bound', 'literal sentences are tested', 'lib/tokenizer-penn.cc lib/tokenizer.cc', [('rewrite rules', 'TokenizerPenn::Tokenize')])
P('C35', 'case conversion changes only letter case', 'Lower-casing and title-casing a word, sentence or tree changes nothing but the case of letters and is idempotent; title-casing and true-casing touch only sentence starts (the first word, and the first word after an end mark, skipping opening marks). The true-casing model trained on a corpus lists for each word seen inside sentences its most frequent form, and true-casing replaces a word by the listed form of the same letters and leaves other words alone. Transforming a tree keeps its labels, spans and edges, changes leaves and words alike, and leaves its input alone.',
  I, 'all ASCII words and sentences up to the bound', 'literal words are tested', 'lib/caser.cc lib/train-caser-runner.cc', [('case mapping', 'Caser::ToLower, ToTitle, TrueCase, SentenceFirst, TransformGraph; TrainCaserRunner::Run')])
P('C36', 'word splitting preserves the text and the forest', 'Splitting the words of a sentence or forest keeps the characters of every word in order (compound splitting may drop one of the given fillers), gives the new terminals consecutive spans that refine the old ones below a preterminal of the old label each, keeps all other nodes, edges, labels and edge scores, and shifts all later spans consistently. A delimiter expression splits a word at every match and keeps the delimiters; compound splitting splits a rare or unknown word into the two listed parts of sufficient length with the best mean log probability, if that beats the word.',
  I, 'all words and forests up to the bound', 'two literal trees are tested', 'lib/word-splitter.cc lib/word-splitter-compound.cc lib/word-splitter-regex.cc', [('splitting', 'WordSplitter::TransformGraph, WordSplitterCompound::StringSplit')])
P('C37', 'word alignments parse and print exactly', 'Reading a line of alignment pairs gives the set of pairs in it, printing gives its pairs in order with single blanks between them, which reads back as the same alignment, the lookup tables from source to target and back list exactly the linked positions, and anything that is not a pair of non-negative numbers is rejected.',
  I, 'all lines up to the bound', 'one literal line is tested', 'lib/alignment.cc include/travatar/alignment.h', [('parser', 'Alignment::FromString, GetSrcAlignments')])
P('C38', 'symbol tables are bijections', 'Whatever the order of additions and lookups, from one thread or (in the thread-safe mode) several at once, a symbol table gives each distinct string one id, the ids 0..n-1 are dense, looking an id up gives the string back, and looking an unknown string up without adding does not change the table.',
  ['inputs', 'histories', 'schedules'], 'all operation sequences and interleavings up to the bound', 'not sampled beyond literals', 'include/travatar/symbol-set.h lib/dict.cc', [('id assignment', 'SymbolSet::GetId/GetSymbol')])
P('C39', 'rule composition enumerates exactly the composed rules', 'Composing the minimal rules of a derivation forest up to a given size yields, for each node, exactly one composed rule for each connected set of at most that many minimal rules rooted there (and, within a lexical span limit, for each larger set without tails that exceeds the size only inside its last child); the composed rule has the tails, target side, source fragments and score obtained by substituting the rules into each other, so target sides of all derivations stay the same.',
  I, 'all derivation forests up to the bound', 'two literal graphs are tested', 'lib/rule-composer.cc', [('composition', 'RuleComposer::BuildComposedEdges, ComposeEdge')])
P('C40', 'flattening unary chains keeps spans, words and reachable structure', 'Flattening merges every chain of unary productions over non-terminals that have a single edge into one node, labelled with the labels of the chain joined by underscores, adding the scores and features along the chain; it keeps the words, the spans, the node numbers and the rest of the structure (nodes with several edges keep all of them) and leaves its input unchanged.',
  I, 'all trees up to the bound', 'one literal tree is tested', 'lib/unary-flattener.cc', [('flattening', 'UnaryFlattener::TransformGraph')])
P('C41', 'copying and joining forests keeps every reference internal', 'A copied forest is equal to the original (nodes, edges, words, kind, and the fragments of rule edges), shares no node or edge with it and is unaffected by later changes to it. Appending one forest to another returns the number of the appended root, leaves the first part and the appended forest as they were, and adds a copy of the second whose node and edge numbers are shifted to their positions, every edge listed under its head and every reference internal. Added nodes and edges get their position as number, an occupied number is rejected, and the labelled spans of a forest give each span the label of its first node.',
  ['inputs', 'histories'], 'all topologies up to the bound', 'tests check two literal graphs', 'lib/hyper-graph.cc', [('structure', 'HyperGraph copy constructor, Append, AddNode, AddEdge, DeleteNodes, DeleteEdges, GetLabeledSpans')])
P('C42', 'softmax and log-sum are normalised and order independent', 'Adding log probabilities gives the logarithm of the sum of the probabilities whatever the order and magnitude of the operands, and softmax outputs are non-negative, sum to one and keep the order of their inputs.',
  I, 'all real vectors up to the bound', 'one literal vector is tested', 'include/travatar/softmax.h', [('log-sum-exp', 'AddLogProbs, Softmax')])
P('C43', 'the analytic gradient matches the objective', 'The gradient computed for expected-score tuning is the derivative of the objective (expected average score, or BLEU of the expected statistics, with its L2 and entropy terms) with respect to each weight and the scale at every evaluation, and the optimiser returns the best weights it has evaluated, never worse than the start.',
  I, 'all n-best lists and weights', 'one literal example is compared numerically', 'lib/gradient-xeval.cc lib/tune-lbfgs.cc', [('gradient', 'GradientXeval::CalcSentenceGradient')])
P('C44', 'a rule printed to the rule table is the rule that is read back', 'Every extracted rule printed in rule table form and read by the decoder, by the in-memory and the compressed table alike, matches the tree fragment it was extracted from and gives the same target side, variables, labels and features; a flat (string-side) rule with one or several target factors printed and read into a grammar gives the same source side, target sides, labels and features. Words and labels may be any text without blanks (quotes, vertical bars and variable look-alikes included; a tree label is not a bare vertical bar field).',
  I, 'all rules up to the bound', 'literal rules are tested', 'lib/lookup-table.cc lib/translation-rule.cc lib/dict.cc', [('rule line', 'LookupTableHash::ReadFromRuleTable, TranslationRule, TranslationRuleHiero')])
P('C45', 'target-side rule matching respects target labels', 'With target-side matching, the forest built from a parse and a rule table has one general node for each phrase of the parse, in order, and below it, at no cost, one node for each combination of target labels (one per factor) of the rules that match there. Each label node has exactly the rules with its labels, once per way of matching, with the features of the matched forest edges added to those of the rule; the tails are the variables in source order, each being the label node of the child that agrees with the label of the variable on the target side or, where there is none, the general node of the child, and the feature unmatch_trg counts the latter. Phrases that match nothing (or all, if asked) get an unknown rule for each of their edges below the general node. Both table forms agree.',
  I, 'every rule set and forest up to the bound', 'one literal tree and table is tested, for the number of nodes and edges', 'lib/lookup-table.cc include/travatar/lookup-table.h', [('target-side matching', 'LookupTable::TransformGraphSrcTrg, SpannedStateComparator')])
P('C46', 'CFG parsing with an integrated LM gives exactly the derivations of the grammar', 'For every synchronous grammar and sentence, parsing with an integrated language model (table type cfg) without limits gives a forest whose derivations below the first node are exactly the derivations of the sentence from the start symbol, each once, with the target side of its rules; each edge carries the features of its rule, and along every derivation the language model features sum to the log probability and the number of unknown words of the complete translation with its boundaries. With a pop or chart limit the forest has some of these derivations, none twice, and each span has at most as many rule applications, or nodes, as the limit allows. A sentence without a derivation gives an empty forest, and without a language model there are no language model features.',
  I, 'every grammar, sentence and limit up to the bound', 'the tests of this table are commented out', 'lib/lookup-table-cfglm.cc lib/rule-fsm.cc lib/lm-func.cc', [('chart parsing', 'LookupTableCFGLM::TransformGraph, Consume, AddToChart, CubePrune')])
P('C47', 'rescored n-best lists are ordered by their new scores', 'Rescoring an n-best list with weights gives every candidate the dot product of the weights and its features. Minimum-risk rescoring gives every candidate its expected evaluation against all candidates of the list, each weighted with the softmax of its scaled score; if asked, only the given number of candidates with the best scores take part and are kept. Sentences stay with their features, no other candidate is lost, and the list ends up in order of the new scores, best first. A run of the rescorer takes consecutive lines with one id as a list, prints the best candidate of each list in order and, if asked, writes the whole lists, numbered from zero, with the new scores and unchanged features.',
  I, 'all candidate lists, weights and scores up to the bound', 'no test covers the rescorer', 'lib/rescorer-runner.cc include/travatar/rescorer-runner.h', [('rescoring', 'RescorerRunner::Rescore, Print'), ('reading of lists', 'RescorerRunner::Run')])
P('C48', 'the evaluator reports scores over all sentences and paired bootstrap counts', 'For every output file and evaluation measure the evaluator program reports the score of the accumulated statistics of all sentences (measures see all references beforehand, and read the factor they are set to), and the score of each sentence if asked. A file with fewer lines than the reference is reported as failed and left out of comparisons, one with more is rejected. Bootstrap resampling reports, for every pair of the other files and every measure, the fractions of samples in which the first file has the higher, equal and lower score, where each sample is half of the sentences (at least one) and the same for all files and measures.',
  ['inputs'], 'all small references, outputs and samples', 'no test covers the evaluator program', 'lib/mt-evaluator-runner.cc', [('evaluation and bootstrap', 'MTEvaluatorRunner::Run')])
