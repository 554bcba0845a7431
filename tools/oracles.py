ORACLE = {
'C01':("NbestList, HyperGraph::GetNbest, HyperNode scores","all derivations are enumerated by brute force over the same graph, sorted; the lists for n and n+1 compared"),
'C02':("HyperGraph::InsideOutsideNormalize, logsumexp","sum over all derivations of the product of edge weights in integer arithmetic (powers of two stand for the exponentials)"),
'C03':("tree-io.cc","the tree that was built is compared field by field with what is read back; for text, a recursive-descent recogniser decides well-formedness"),
'C04':("hyper-graph.cc (Egret, JSON), tree-io","field by field comparison, and byte equality of the second writing; a recogniser for malformed lines"),
'C05':("dict.cc, sparse-map, string utilities, output escaping","independent tokeniser for the canonical spelling; inverse functions of the escapings"),
'C06':("forest-extractor, rule-extractor","spans and complements of the alignment computed as bit sets over nodes; composition by substituting target sides from the root"),
'C07':("hiero-extractor","all boxes enumerated and tested for consistency; rules generated by brute-force replacement of one or two inner boxes"),
'C08':("binarizer-*.cc","derivations of the result, with introduced nodes contracted, compared as multisets with those of the input"),
'C09':("trimmer.cc","edges of the n best derivations by enumeration"),
'C10':("lookup-table*.cc, rule-fsm, translation-rule","a recursive matcher over source strings, which knows nothing of the tables, lists all (rule, tails) per node"),
'C11':("lookup-table-cfg*, marisa trie","an exhaustive chart parser over rule lists, then reachability from the start symbol"),
'C12':("lm-composer-bu, lm-composer-inc, kenlm search","derivations enumerated, target strings built and scored word by word by a textbook back-off recursion over the ARPA entries"),
'C13':("rule-filter.*","counting positions directly"),
'C14':("eval-measure-bleu.cc","n-gram multisets counted directly, formula of the definition"),
'C15':("eval-measure-{wer,ter,ribes,nist,zeroone}.cc","Levenshtein table; independent implementation of RIBES 1.02.3 and NIST"),
'C16':("eval-measure*.cc, eval stats","coordinate-wise arithmetic in exact fixed point"),
'C17':("sparse-map.*","arrays indexed by coordinate"),
'C18':("weights-*.cc, tune-online/pro sampling","step by step simulation of the update rule written from the statement"),
'C19':("tune-mert.cc, mert-*.cc, mert-hyper-edge.h","for every t (symbolic) the best candidate by evaluation of all lines at t"),
'C20':("query parser of EvalMeasureInterp (symbolic math)","the expression is generated from a tree whose value is computed alongside"),
'C21':("config-base.*, config-*","an independent reader of command lines/files written from the statement; strtol/strtod grammar recogniser"),
'C22':("output-collector.cc","the concatenation in task order, compared after every step"),
'C23':("thread-pool.cc","monitors on each task and state (run count, deletion, order, limit, deadlock) under every schedule within the bound"),
'C24':("kenlm/util/bit_packing.*","value read back and mask of untouched bits, over bit-vectors; no enumeration"),
'C25':("kenlm/util/probing_hash_table.hh","an association list"),
'C26':("kenlm/util/sorted_uniform.hh","linear search"),
'C27':("kenlm/util/joint_sort.hh, sized_iterator.hh","multiset of pairs, adjacent order"),
'C28':("kenlm/lm/*","back-off recursion over the list of entries"),
'C29':("kenlm/lm/{left,partial,state}.hh, model.cc","scoring left to right, and states compared with those of the whole string"),
'C30':("kenlm/util/{file_piece,tokenize_piece}","splitting the whole text at once"),
'C31':("marisa/grimoire/vector","counting"),
'C32':("marisa","the set of keys"),
'C33':("tercpp","the reported operations are replayed on the sentence and their costs added; Levenshtein for the bound"),
'C34':("tokenizer-penn.cc","character sequence after undoing the documented replacements; rules for marks"),
'C35':("caser.cc","ASCII table, counting of forms"),
'C36':("word-splitter-*.cc","split points found by a hand-written matcher; the forest rebuilt by hand"),
'C37':("alignment.cc","list of pairs"),
'C38':("symbol-set, dict.cc","list of strings"),
'C39':("rule-composer.cc","recursive enumeration of connected sets of rules"),
'C40':("tree-converter/flatten","chains found by walking down from each node that no chain contains"),
'C41':("hyper-graph.cc","field by field comparison and pointer checks"),
'C42':("softmax/logsumexp","sum of powers of two in integers; maximum, order, sum"),
'C43':("gradient-xeval.cc, tune-xeval.cc","the derivative computed from the definition by the quotient rule, with all candidates in one list"),
'C44':("rule printing, lookup tables, cfg grammar","the rule that was built"),
'C45':("lookup-table.cc (BuildTargetForest)","label combinations, rules and tails enumerated from the pattern matches of C10"),
'C46':("lookup-table-cfglm.cc (TransformGraph, CubePrune), rule-fsm.cc, lm-func.cc, kenlm","a recursive enumeration of the derivations of the grammar; the definition of backoff over the entries of the model text"),
'C47':("rescorer-runner.cc (Rescore, Print, Run)","dot products and expected evaluations computed directly; the expected text"),
'C48':("mt-evaluator-runner.cc (Run)","counts over the sentences; existence of samples that explain the reported fractions"),
}
