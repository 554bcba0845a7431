From 97c9327134446672e49acf52e9473aa7100f9948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:51 +0000
Subject: [PATCH 01/52] fix: unique n-best compares only the words of the
 translation

The labels of the children were part of the comparison, so the same output
string could appear several times in a unique n-best list.
---
 src/include/travatar/hyper-graph.h | 2 +-
 src/lib/hyper-graph.cc             | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/include/travatar/hyper-graph.h b/src/include/travatar/hyper-graph.h
index 600a7f4..d2c2f48 100644
--- a/src/include/travatar/hyper-graph.h
+++ b/src/include/travatar/hyper-graph.h
@@ -349,7 +349,7 @@ public:
     std::vector<NbestEdge> edges;
     NbestStateStack stack;
     std::vector<boost::shared_ptr<HyperPath> > paths;
-    std::set<CfgDataVector> uniq_sents;
+    std::set<std::vector<Sentence> > uniq_sents;
 
 };
 
diff --git a/src/lib/hyper-graph.cc b/src/lib/hyper-graph.cc
index ba937f5..c2650ba 100644
--- a/src/lib/hyper-graph.cc
+++ b/src/lib/hyper-graph.cc
@@ -342,11 +342,13 @@ boost::shared_ptr<HyperPath> HyperGraph::NbestGetNthPath(int node, int rank, boo
         boost::shared_ptr<HyperPath> act_path = NbestCreatePath(node, *item, uniq, states);
         // Check whether to add it or not
         if(uniq) {
+            // Compare only the words, as the labels of children do not appear in the output
             CfgDataVector trg = act_path->CalcTranslations();
-            if(state->uniq_sents.find(trg) == state->uniq_sents.end()) {
-                state->uniq_sents.insert(trg);
+            vector<Sentence> trg_words;
+            BOOST_FOREACH(const CfgData & data, trg)
+                trg_words.push_back(data.words);
+            if(state->uniq_sents.insert(trg_words).second)
                 state->paths.push_back(act_path);
-            }
         } else {
             state->paths.push_back(act_path);
         }
-- 
2.43.0


From d25eec85cebe790cb61028a0079204875f160738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:51 +0000
Subject: [PATCH 02/52] fix: n-best list does not repeat a derivation because
 of rounding

---
 src/include/travatar/hyper-graph.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/include/travatar/hyper-graph.h b/src/include/travatar/hyper-graph.h
index d2c2f48..a2710b1 100644
--- a/src/include/travatar/hyper-graph.h
+++ b/src/include/travatar/hyper-graph.h
@@ -338,7 +338,12 @@ public:
 
     typedef std::set<boost::shared_ptr<NbestStackItem>, StackScoreMore> NbestStateStack;
 
-    void PushStack(const boost::shared_ptr<NbestStackItem> & item) { stack.insert(item); }
+    // The same item can be reached by incrementing its children in different
+    // orders, with scores that differ by a rounding error
+    void PushStack(const boost::shared_ptr<NbestStackItem> & item) {
+        if(pushed.insert(std::make_pair(item->edge_rank, item->child_ranks)).second)
+            stack.insert(item);
+    }
     boost::shared_ptr<NbestStackItem> PopStack() {
         NbestStateStack::iterator beg = stack.begin();
         boost::shared_ptr<NbestStackItem> ret = *beg;
@@ -348,6 +353,7 @@ public:
 
     std::vector<NbestEdge> edges;
     NbestStateStack stack;
+    std::set<std::pair<int, std::vector<int> > > pushed;
     std::vector<boost::shared_ptr<HyperPath> > paths;
     std::set<std::vector<Sentence> > uniq_sents;
 
-- 
2.43.0


From 494b088166563fd186879c4ac622893de2d40d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:58 +0000
Subject: [PATCH 03/52] fix: SparseVector built from pairs sums the values of
 repeated keys

---
 src/lib/sparse-map.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sparse-map.cc b/src/lib/sparse-map.cc
index 8c97133..594394a 100644
--- a/src/lib/sparse-map.cc
+++ b/src/lib/sparse-map.cc
@@ -124,7 +124,7 @@ SparseVector::SparseVector(const std::vector<SparsePair> & vec) : impl_(vec) {
     SparseVectorImpl::iterator itl = impl_.begin(), itr = impl_.begin()+1;
     while(itr != impl_.end()) {
         if(itl->first == itr->first) {
-            itl->second += itr->first;
+            itl->second += itr->second;
         } else {
             itl++;
             *itl = *itr;
-- 
2.43.0


From a7c5a1a1f7419ffec0427bb9b88f608faca5362c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:58 +0000
Subject: [PATCH 04/52] fix: SparseVector -= negates coordinates missing on the
 left

---
 src/lib/sparse-map.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/sparse-map.cc b/src/lib/sparse-map.cc
index 594394a..416d188 100644
--- a/src/lib/sparse-map.cc
+++ b/src/lib/sparse-map.cc
@@ -214,7 +214,10 @@ SparseVector & operator-=(SparseVector & lhs, const SparseVector & rhs) {
     SparseVector::SparseVectorImpl & impl = lhs.GetImpl();
     while(itr != rhs.end()) {
         if(itl == lhs.end()) {
-            impl.insert(itl, itr, rhs.end());
+            while(itr != rhs.end()) {
+                impl.push_back(make_pair(itr->first, -itr->second));
+                itr++;
+            }
             break;
         } else if(itl->first == itr->first) {
             itl->second -= itr->second;
@@ -222,7 +225,7 @@ SparseVector & operator-=(SparseVector & lhs, const SparseVector & rhs) {
         } else if(itl->first < itr->first) {
             itl++;
         } else {
-            itl = impl.insert(itl, *itr);
+            itl = impl.insert(itl, make_pair(itr->first, -itr->second));
             itr++;
         }
     }
-- 
2.43.0


From 0b4e479cf9a0051cd98ea02033d7ffb2596d333d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:59 +0000
Subject: [PATCH 05/52] fix: alignment strings with positions that are not
 numbers are rejected

---
 src/lib/alignment.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/alignment.cc b/src/lib/alignment.cc
index 3f9edee..479d31e 100644
--- a/src/lib/alignment.cc
+++ b/src/lib/alignment.cc
@@ -28,8 +28,9 @@ Alignment::AlignmentPair Alignment::SplitAlignment(const string & str) {
     if(left_right.size() != 2)
         THROW_ERROR("Bad alignment string (must be in the format \"LENGTH ||| FPOS1-EPOS1 FPOS1-EPOS1\"" << endl << str);
     AlignmentPair ret;
-    istringstream left(left_right[0]); left >> ret.first;
-    istringstream right(left_right[1]); right >> ret.second;
+    istringstream left(left_right[0]), right(left_right[1]);
+    if(!(left >> ret.first) || !(left >> ws).eof() || !(right >> ret.second) || !(right >> ws).eof())
+        THROW_ERROR("Bad alignment string (positions must be numbers)" << endl << str);
     return ret;
 }
 Alignment Alignment::FromString(const string & str) {
-- 
2.43.0


From 4bb5dc1f8c5189dbdf8423e8d56e2360262ba910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:53 +0000
Subject: [PATCH 06/52] fix: AutoProbing::Insert counts the entry, so that the
 table grows

---
 src/kenlm/util/probing_hash_table.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kenlm/util/probing_hash_table.hh b/src/kenlm/util/probing_hash_table.hh
index ea228dd..c742aa0 100644
--- a/src/kenlm/util/probing_hash_table.hh
+++ b/src/kenlm/util/probing_hash_table.hh
@@ -278,6 +278,7 @@ template <class EntryT, class HashT, class EqualT = std::equal_to<typename Entry
     // Assumes that the key is unique.  Multiple insertions won't cause a failure, just inconsistent lookup.
     template <class T> MutableIterator Insert(const T &t) {
       DoubleIfNeeded();
+      ++backend_.entries_;
       return backend_.UncheckedInsert(t);
     }
 
-- 
2.43.0


From 147d858cca2f4c1f1beab35a4a3d1966458057ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:55 +0000
Subject: [PATCH 07/52] fix: interpolated evaluation statistics implement
 PlusEqualsTimes

---
 src/include/travatar/eval-measure-adv-interp.h | 1 +
 src/include/travatar/eval-measure-interp.h     | 1 +
 src/lib/eval-measure-adv-interp.cc             | 8 ++++++++
 src/lib/eval-measure-interp.cc                 | 8 ++++++++
 4 files changed, 18 insertions(+)

diff --git a/src/include/travatar/eval-measure-adv-interp.h b/src/include/travatar/eval-measure-adv-interp.h
index 6b764bd..f8b3ee0 100644
--- a/src/include/travatar/eval-measure-adv-interp.h
+++ b/src/include/travatar/eval-measure-adv-interp.h
@@ -28,6 +28,7 @@ public:
     // Check if the value is zero
     virtual bool IsZero();
     virtual EvalStats & PlusEquals(const EvalStats & rhs);
+    virtual EvalStats & PlusEqualsTimes(const EvalStats & rhs, Real p);
     virtual EvalStats & TimesEquals(EvalStatsDataType mult);
     virtual bool Equals(const EvalStats & rhs) const;
 
diff --git a/src/include/travatar/eval-measure-interp.h b/src/include/travatar/eval-measure-interp.h
index 86139e2..8a7a462 100644
--- a/src/include/travatar/eval-measure-interp.h
+++ b/src/include/travatar/eval-measure-interp.h
@@ -29,6 +29,7 @@ public:
     // Check if the value is zero
     virtual bool IsZero();
     virtual EvalStats & PlusEquals(const EvalStats & rhs);
+    virtual EvalStats & PlusEqualsTimes(const EvalStats & rhs, Real p);
     virtual EvalStats & TimesEquals(EvalStatsDataType mult);
     virtual bool Equals(const EvalStats & rhs) const;
 
diff --git a/src/lib/eval-measure-adv-interp.cc b/src/lib/eval-measure-adv-interp.cc
index 272bc0d..8259626 100644
--- a/src/lib/eval-measure-adv-interp.cc
+++ b/src/lib/eval-measure-adv-interp.cc
@@ -46,6 +46,14 @@ EvalStats & EvalStatsAdvInterp::PlusEquals(const EvalStats & rhs) {
         stats_[i]->PlusEquals(*rhsi.stats_[i]);
     return *this;
 }
+EvalStats & EvalStatsAdvInterp::PlusEqualsTimes(const EvalStats & rhs, Real p) {
+    const EvalStatsAdvInterp & rhsi = (const EvalStatsAdvInterp &)rhs;
+    if(stats_.size() != rhsi.stats_.size())
+        THROW_ERROR("Interpreted eval measure sizes don't match");
+    for(int i = 0; i < (int)stats_.size(); i++)
+        stats_[i]->PlusEqualsTimes(*rhsi.stats_[i], p);
+    return *this;
+}
 EvalStats & EvalStatsAdvInterp::TimesEquals(EvalStatsDataType mult) {
     for(int i = 0; i < (int)stats_.size(); i++)
         stats_[i]->TimesEquals(mult);
diff --git a/src/lib/eval-measure-interp.cc b/src/lib/eval-measure-interp.cc
index 5087c82..24a2a60 100644
--- a/src/lib/eval-measure-interp.cc
+++ b/src/lib/eval-measure-interp.cc
@@ -46,6 +46,14 @@ EvalStats & EvalStatsInterp::PlusEquals(const EvalStats & rhs) {
         stats_[i]->PlusEquals(*rhsi.stats_[i]);
     return *this;
 }
+EvalStats & EvalStatsInterp::PlusEqualsTimes(const EvalStats & rhs, Real p) {
+    const EvalStatsInterp & rhsi = (const EvalStatsInterp &)rhs;
+    if(stats_.size() != rhsi.stats_.size())
+        THROW_ERROR("Interpreted eval measure sizes don't match");
+    for(int i = 0; i < (int)stats_.size(); i++)
+        stats_[i]->PlusEqualsTimes(*rhsi.stats_[i], p);
+    return *this;
+}
 EvalStats & EvalStatsInterp::TimesEquals(EvalStatsDataType mult) {
     for(int i = 0; i < (int)stats_.size(); i++)
         stats_[i]->TimesEquals(mult);
-- 
2.43.0


From 9aa3e9b9f68dbfc719a30254f7a5445632b4f3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:55 +0000
Subject: [PATCH 08/52] fix: EvalStatsAdvInterp::Equals compares the whole
 query

---
 src/lib/eval-measure-adv-interp.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/eval-measure-adv-interp.cc b/src/lib/eval-measure-adv-interp.cc
index 8259626..2a24a72 100644
--- a/src/lib/eval-measure-adv-interp.cc
+++ b/src/lib/eval-measure-adv-interp.cc
@@ -61,9 +61,9 @@ EvalStats & EvalStatsAdvInterp::TimesEquals(EvalStatsDataType mult) {
 }
 bool EvalStatsAdvInterp::Equals(const EvalStats & rhs) const {
     const EvalStatsAdvInterp & rhsi = (const EvalStatsAdvInterp &)rhs;
-    if(stats_.size() != rhsi.stats_.size()) return false;
+    if(stats_.size() != rhsi.stats_.size() || query_ != rhsi.query_) return false;
     for(int i = 0; i < (int)stats_.size(); i++) {
-        if(!stats_[i]->Equals(*rhsi.stats_[i]) || vars_[i] != rhsi.vars_[i] || query_[i] != rhsi.query_[i])
+        if(!stats_[i]->Equals(*rhsi.stats_[i]) || vars_[i] != rhsi.vars_[i])
             return false;
     }
     return true;
-- 
2.43.0


From cae22d6426580d0b9f2745f72f2a932ab896732d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:55 +0000
Subject: [PATCH 09/52] fix: RIBES uses the whole left context to disambiguate
 repeated words

---
 src/lib/eval-measure-ribes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/eval-measure-ribes.cc b/src/lib/eval-measure-ribes.cc
index ad8fd4e..c192f08 100644
--- a/src/lib/eval-measure-ribes.cc
+++ b/src/lib/eval-measure-ribes.cc
@@ -52,7 +52,7 @@ boost::shared_ptr<EvalStats> EvalMeasureRibes::CalculateStats(const Sentence & r
             // These vectors store all hypotheses that are still matching on the right or left
             vector<int> left_ref = ref_match, left_sys = sys_match,
                         right_ref = ref_match, right_sys = sys_match;
-            for(int window = 1; window < max(i, (int)sys.size()-i); window++) {
+            for(int window = 1; window < max(i+1, (int)sys.size()-i); window++) {
                 // Update the possible hypotheses on the left
                 if(window <= i) {
                     vector<int> new_left_ref, new_left_sys;
-- 
2.43.0


From 7429a85c71d6fb3c90a09539c1a31fefbc604a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:55 +0000
Subject: [PATCH 10/52] fix: NIST of sentences shorter than the n-gram order is
 not NaN

---
 src/lib/eval-measure-nist.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/eval-measure-nist.cc b/src/lib/eval-measure-nist.cc
index 5b56928..61f24b3 100644
--- a/src/lib/eval-measure-nist.cc
+++ b/src/lib/eval-measure-nist.cc
@@ -98,7 +98,7 @@ NistReport EvalStatsNist::CalcNistReport() const {
     // Calculate the precision for each order
     report.nist = 0.0;
     for (int i=0; i < ngram_order; i++) {
-        Real score = vals_[2*i]/vals_[2*i+1];
+        Real score = (vals_[2*i+1] ? vals_[2*i]/vals_[2*i+1] : 0);
         report.scores.push_back(score);
         report.nist += score;
     }
-- 
2.43.0


From 139ccde8336f3389680af53c456dc4a08ac80cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:55 +0000
Subject: [PATCH 11/52] fix: rounding in the BLEU f-measure of a perfect match
 is not an error

---
 src/lib/eval-measure-bleu.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/eval-measure-bleu.cc b/src/lib/eval-measure-bleu.cc
index c0716d9..8d31d2b 100644
--- a/src/lib/eval-measure-bleu.cc
+++ b/src/lib/eval-measure-bleu.cc
@@ -147,7 +147,8 @@ BleuReport EvalStatsBleu::CalcBleuReport() const {
         report.brevity = 1.0;
     }
     // Sanity check
-    if(log_bleu > 0) THROW_ERROR("Found a "<< GetIdString() <<" larger than one: " << exp(log_bleu))
+    if(log_bleu > 1e-6) THROW_ERROR("Found a "<< GetIdString() <<" larger than one: " << exp(log_bleu))
+    log_bleu = min(log_bleu, (Real)0.0);
     report.bleu = exp(log_bleu);
     
     return report;
-- 
2.43.0


From e15ef93947407cae2fad881cb9b3d0f9893ce5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:55 +0000
Subject: [PATCH 12/52] fix: evaluation statistics are written with full
 precision

---
 src/lib/eval-measure.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/eval-measure.cc b/src/lib/eval-measure.cc
index 85badd0..962bb03 100644
--- a/src/lib/eval-measure.cc
+++ b/src/lib/eval-measure.cc
@@ -12,6 +12,7 @@
 #include <boost/algorithm/string.hpp>
 
 #include <fstream>
+#include <limits>
 #include <map>
 
 using namespace std;
@@ -91,6 +92,7 @@ void EvalStats::ReadStats(const std::string & str) {
 }
 std::string EvalStats::WriteStats() {
     std::ostringstream oss;
+    oss.precision(std::numeric_limits<EvalStatsDataType>::digits10);
     for(int i = 0; i < (int)vals_.size(); i++) {
         if(i) oss << ' ';
         oss << vals_[i];
-- 
2.43.0


From c7ca8af51d460ff84d8c26f0d751f6eaefbb1538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:06 +0000
Subject: [PATCH 13/52] fix: rounding in the BLEU f-measure of a perfect match
 never exceeds one

---
 src/lib/eval-measure-bleu.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/eval-measure-bleu.cc b/src/lib/eval-measure-bleu.cc
index 8d31d2b..f7396a7 100644
--- a/src/lib/eval-measure-bleu.cc
+++ b/src/lib/eval-measure-bleu.cc
@@ -114,6 +114,9 @@ BleuReport EvalStatsBleu::CalcBleuReport() const {
         Real ref = (vals_[3*i+2]+smooth);
         
         Real fmeas = (sys == 0 ? 0 : mat / (prec_weight_ * sys + (1-prec_weight_) * ref));
+        // The weighted sum in the denominator can be rounded down
+        if(fmeas > 1.0 && fmeas < 1.0+1e-6)
+            fmeas = 1.0;
         // To support PINC
         if (inverse_)
             fmeas = 1.0 - fmeas;
@@ -147,8 +150,7 @@ BleuReport EvalStatsBleu::CalcBleuReport() const {
         report.brevity = 1.0;
     }
     // Sanity check
-    if(log_bleu > 1e-6) THROW_ERROR("Found a "<< GetIdString() <<" larger than one: " << exp(log_bleu))
-    log_bleu = min(log_bleu, (Real)0.0);
+    if(log_bleu > 0) THROW_ERROR("Found a "<< GetIdString() <<" larger than one: " << exp(log_bleu))
     report.bleu = exp(log_bleu);
     
     return report;
-- 
2.43.0


From d8341971c2a9dcf9c12fccbb2d62db1cb183f940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:25 +0000
Subject: [PATCH 14/52] fix: NIST of an empty sentence with an empty reference
 is not NaN

---
 src/lib/eval-measure-nist.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/eval-measure-nist.cc b/src/lib/eval-measure-nist.cc
index 61f24b3..338a3de 100644
--- a/src/lib/eval-measure-nist.cc
+++ b/src/lib/eval-measure-nist.cc
@@ -108,7 +108,7 @@ NistReport EvalStatsNist::CalcNistReport() const {
     report.ref_len = *vals_.rbegin();
     // Calculate the brevity penalty
     report.ratio = (Real)report.sys_len/report.ref_len;
-    if(report.ratio >= 1.0) {
+    if(report.ratio >= 1.0 || report.ref_len == 0) {
       report.brevity = 1.0;
     } else if(report.ratio <= 0.0) {
       report.brevity = 0.0;
-- 
2.43.0


From 04d3faca7521f71b8bf3a4b5df86271a5196c8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:42 +0000
Subject: [PATCH 15/52] fix: flattening merges whole unary chains and keeps
 nodes with several edges

---
 src/lib/unary-flattener.cc | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/lib/unary-flattener.cc b/src/lib/unary-flattener.cc
index 24b2940..39e6073 100644
--- a/src/lib/unary-flattener.cc
+++ b/src/lib/unary-flattener.cc
@@ -12,21 +12,18 @@ HyperGraph * UnaryFlattener::TransformGraph(const HyperGraph & hg) const {
     // First copy the graph
     HyperGraph * ret = new HyperGraph(hg);
     BOOST_FOREACH(HyperNode * node, ret->GetNodes()) {
-        if(node->NumEdges() > 1) {
-            // THROW_ERROR("Flatten does not currently work for hypergraphs of degree > 1");
-        } else if(node->NumEdges() == 0 ||
-                  node->GetEdge(0)->NumTails() != 1) {
-            continue;
-        }
-        HyperEdge * old_edge = node->GetEdge(0);
-        HyperNode * old_child = old_edge->GetTail(0);
-        if(old_child->NumEdges() > 0) {
-            node->GetEdges().clear();
-            node->GetEdges().push_back(old_child->GetEdge(0));
-            node->GetEdge(0)->SetHead(node);
+        // Follow the whole chain. Nodes with more than one edge cannot be merged
+        while(node->NumEdges() == 1 && node->GetEdge(0)->NumTails() == 1 &&
+              node->GetEdge(0)->GetTail(0)->NumEdges() == 1) {
+            HyperEdge * edge = node->GetEdge(0);
+            HyperNode * old_child = edge->GetTail(0);
+            const HyperEdge * child_edge = old_child->GetEdge(0);
+            edge->SetScore(edge->GetScore() + child_edge->GetScore());
+            edge->SetFeatures(edge->GetFeatures() + child_edge->GetFeatures());
+            edge->SetTails(child_edge->GetTails());
             node->SetSym(Dict::WID(Dict::WSym(node->GetSym())+"_"+
                                    Dict::WSym(old_child->GetSym())));
-        } 
+        }
     }
     return ret;
 
-- 
2.43.0


From 4e0f44ab08c7dc8f25c1b325d0be8b9fff7aea74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:47 +0000
Subject: [PATCH 16/52] fix: tails of an extracted rule follow the source order
 of its variables

---
 src/lib/forest-extractor.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/lib/forest-extractor.cc b/src/lib/forest-extractor.cc
index d06175b..c9cf706 100644
--- a/src/lib/forest-extractor.cc
+++ b/src/lib/forest-extractor.cc
@@ -66,6 +66,13 @@ HyperGraph* ForestExtractor::ExtractMinimalRules(
                     open.push(frag_front);
                     continue;
                 }
+                // If it is another frontier node, it is the next tail. Adding the tails here
+                // keeps them in the order in which they appear on the source side
+                if(u != v && u->IsFrontier() == HyperNode::IS_FRONTIER) {
+                    frag_front.first->AddTail(ret->GetNode(old_new_ids[u->GetId()]));
+                    open.push(frag_front);
+                    continue;
+                }
                 // Otherwise process all hyperedges of u
                 BOOST_FOREACH(HyperEdge* e_hyp, u->GetEdges()) {
                     RuleEdge* e = static_cast<RuleEdge*>(e_hyp);
@@ -74,13 +81,8 @@ HyperGraph* ForestExtractor::ExtractMinimalRules(
                     // in ascending order
                     deque<HyperNode*> new_front;
                     RuleEdge * new_frag(new RuleEdge(*frag_front.first));
-                    BOOST_FOREACH(HyperNode* t, e->GetTails()) {
-                        // If this is not a frontier node, push it on the queue
-                        if(t->IsFrontier() != HyperNode::IS_FRONTIER)
-                            new_front.push_back(t);
-                        else
-                            new_frag->AddTail(ret->GetNode(old_new_ids[t->GetId()]));
-                    }
+                    BOOST_FOREACH(HyperNode* t, e->GetTails())
+                        new_front.push_back(t);
                     BOOST_FOREACH(HyperNode * stack_node, frag_front.second)
                         new_front.push_back(stack_node);
                     // Push this on to the queue
-- 
2.43.0


From ebb305676d676da2ad0c4f4614f906cedcb66dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:18 +0000
Subject: [PATCH 17/52] fix: reject alignments that point outside of the target
 sentence in rule extraction

---
 src/lib/forest-extractor.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib/forest-extractor.cc b/src/lib/forest-extractor.cc
index c9cf706..9c4704c 100644
--- a/src/lib/forest-extractor.cc
+++ b/src/lib/forest-extractor.cc
@@ -105,8 +105,11 @@ HyperGraph * ForestExtractor::AttachNullsTop(const HyperGraph & rule_graph,
     HyperGraph * ret = new HyperGraph(rule_graph);
     if(ret->NumNodes() > 0) {
         vector<bool> nulls(trg_len, true);
-        BOOST_FOREACH(const Alignment::AlignmentPair & a, align.GetAlignmentVector())
+        BOOST_FOREACH(const Alignment::AlignmentPair & a, align.GetAlignmentVector()) {
+            if(a.second >= trg_len)
+                THROW_ERROR("Alignment outside of the target sentence: " << a.first << "-" << a.second);
             nulls[a.second] = false;
+        }
         AttachNullsTop(nulls, *ret->GetNode(0));
     }
     return ret;
@@ -147,8 +150,11 @@ HyperGraph * ForestExtractor::AttachNullsExhaustive(
     ret->GetNode(0)->SetFrontier(HyperNode::NOT_FRONTIER);
     vector<bool> nulls(trg_len, true);
     // Find the null aligned target words
-    BOOST_FOREACH(const Alignment::AlignmentPair &a, align.GetAlignmentVector())
+    BOOST_FOREACH(const Alignment::AlignmentPair &a, align.GetAlignmentVector()) {
+        if(a.second >= trg_len)
+            THROW_ERROR("Alignment outside of the target sentence: " << a.first << "-" << a.second);
         nulls[a.second] = false;
+    }
     vector< SpanNodeVector > new_nodes(rule_graph.NumNodes());
     // Get the expanded nodes in the new graph 
     GetExpandedNodes(nulls, *rule_graph.GetNode(0), new_nodes, max_attach_);
@@ -317,6 +323,8 @@ string RuleExtractor::RuleToString(const RuleEdge & rule, const Sentence & src_s
     if(trg_span.size() == 0)
         THROW_ERROR("Empty target span in rule " << rule << endl << Dict::PrintWords(src_sent) << endl << Dict::PrintWords(trg_sent));
     int trg_begin = *trg_span.begin(), trg_end = *trg_span.rbegin()+1;
+    if(trg_end > (int)trg_sent.size())
+        THROW_ERROR("Target span outside of the target sentence in rule " << rule << endl << Dict::PrintWords(src_sent) << endl << Dict::PrintWords(trg_sent));
     int src_begin = rule.GetHead()->GetSpan().first, src_end = rule.GetHead()->GetSpan().second;
     // Create the covered target vector. Initially all are -1, indicating that
     // they have not yet been covered by a child frontier node
-- 
2.43.0


From b590b5fb635d9420ee0f96b44e50ac074fb3739a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:58 +0000
Subject: [PATCH 18/52] fix: compressed rule table keeps all rules of a source
 whose lines are not adjacent

---
 src/lib/lookup-table-marisa.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lib/lookup-table-marisa.cc b/src/lib/lookup-table-marisa.cc
index 248406a..4b93bae 100644
--- a/src/lib/lookup-table-marisa.cc
+++ b/src/lib/lookup-table-marisa.cc
@@ -7,6 +7,7 @@
 #include <marisa/marisa.h>
 #include <boost/foreach.hpp>
 #include <boost/algorithm/string.hpp>
+#include <boost/unordered_map.hpp>
 #include <sstream>
 
 using namespace travatar;
@@ -36,11 +37,12 @@ LookupTableMarisa * LookupTableMarisa::ReadFromFile(std::string & filename) {
 
 LookupTableMarisa * LookupTableMarisa::ReadFromRuleTable(std::istream & in) {
     // First read in the rule table
-    string line, last_src;
+    string line;
     LookupTableMarisa * ret = new LookupTableMarisa;
     // Rule table
     typedef vector<TranslationRule*> RuleVec;
     vector<RuleVec> rules;
+    boost::unordered_map<string, size_t> src_ids;
     marisa::Keyset keyset;
     while(getline(in, line)) {
         vector<string> columns = Tokenize(line, " ||| ");
@@ -49,12 +51,14 @@ LookupTableMarisa * LookupTableMarisa::ReadFromRuleTable(std::istream & in) {
         CfgDataVector trg_data = Dict::ParseAnnotatedVector(columns[1]);
         SparseVector features = Dict::ParseSparseVector(columns[2]);
         TranslationRule* rule = new TranslationRule(trg_data, features);
-        if(rules.size() == 0 || columns[0] != last_src) {
+        // The rules of one source are not necessarily on adjacent lines
+        pair<boost::unordered_map<string, size_t>::iterator, bool> src_id =
+            src_ids.insert(make_pair(columns[0], rules.size()));
+        if(src_id.second) {
             keyset.push_back(columns[0].c_str());
             rules.push_back(vector<TranslationRule*>());
-            last_src = columns[0];
         }
-        rules.rbegin()->push_back(rule);
+        rules[src_id.first->second].push_back(rule);
     }
     // Build the trie
     ret->GetTrie().build(keyset);
-- 
2.43.0


From 633e7b7d7b9cf65ba26ccdc699133608921dbfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:12 +0000
Subject: [PATCH 19/52] fix: detect unary cycles through several rules when
 reading a string-to-tree grammar

---
 src/lib/rule-fsm.cc | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/lib/rule-fsm.cc b/src/lib/rule-fsm.cc
index 69afd1a..6ee102a 100644
--- a/src/lib/rule-fsm.cc
+++ b/src/lib/rule-fsm.cc
@@ -64,11 +64,8 @@ RuleFSM * RuleFSM::ReadFromRuleTable(istream & in) {
                 UnaryMap::iterator it = unaries.find(target);
                 if(it != unaries.end()) {
                     BOOST_FOREACH(const HieroHeadLabels & second_trg, it->second) {
-                        set<HieroHeadLabels>::iterator it2 = val.second.find(target);
-                        if(it2 == val.second.end()) {
+                        if(val.second.insert(second_trg).second)
                             added = true;
-                            val.second.insert(second_trg);
-                        } 
                     }
                 }
             }
-- 
2.43.0


From 988a87512c823c26f3cb8e83086e59fb011bedbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:57 +0000
Subject: [PATCH 20/52] fix: reject grammar rules whose variables have no label

---
 src/lib/rule-fsm.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib/rule-fsm.cc b/src/lib/rule-fsm.cc
index 6ee102a..258a1b6 100644
--- a/src/lib/rule-fsm.cc
+++ b/src/lib/rule-fsm.cc
@@ -32,8 +32,6 @@ RuleFSM * RuleFSM::ReadFromRuleTable(istream & in) {
             Dict::ParseSparseVector(columns[2]),
             src_data
         );
-        if(src_data.syms.size() == 1 && src_data.words.size() == 1)
-            unaries[rule->GetChildHeadLabels(0)].insert(rule->GetHeadLabels());
         // Sanity check
         BOOST_FOREACH(const CfgData & trg_data, rule->GetTrgData())
             if(trg_data.syms.size() != src_data.syms.size())
@@ -41,8 +39,14 @@ RuleFSM * RuleFSM::ReadFromRuleTable(istream & in) {
         if(src_data.words.size() == 0)
             THROW_ERROR("Empty sources in a rule are not allowed: " << endl << line);
         BOOST_FOREACH(WordId srcid, src_data.words)
-            if(-1 - srcid > (int)src_data.syms.size())
+            if(-1 - srcid >= (int)src_data.syms.size())
                 THROW_ERROR("Non-terminal ID is larger than number of symbols: " << endl << line);
+        BOOST_FOREACH(const CfgData & trg_data, rule->GetTrgData())
+            BOOST_FOREACH(WordId trgid, trg_data.words)
+                if(-1 - trgid >= (int)src_data.syms.size())
+                    THROW_ERROR("Target non-terminal ID is larger than number of symbols: " << endl << line);
+        if(src_data.syms.size() == 1 && src_data.words.size() == 1)
+            unaries[rule->GetChildHeadLabels(0)].insert(rule->GetHeadLabels());
 
         string key_str = CreateKey(src_data, trg_data);
         rules[key_str].push_back(rule);
-- 
2.43.0


From ccea87f574f55d84e99c6c2b5c26119dab97cc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:59 +0000
Subject: [PATCH 21/52] fix: reject grammar rules in which only some source
 variables have a label

---
 src/lib/rule-fsm.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/rule-fsm.cc b/src/lib/rule-fsm.cc
index 258a1b6..b5f8ea4 100644
--- a/src/lib/rule-fsm.cc
+++ b/src/lib/rule-fsm.cc
@@ -41,6 +41,9 @@ RuleFSM * RuleFSM::ReadFromRuleTable(istream & in) {
         BOOST_FOREACH(WordId srcid, src_data.words)
             if(-1 - srcid >= (int)src_data.syms.size())
                 THROW_ERROR("Non-terminal ID is larger than number of symbols: " << endl << line);
+        BOOST_FOREACH(WordId srcsym, src_data.syms)
+            if(srcsym < 0)
+                THROW_ERROR("Source non-terminals must have a label: " << endl << line);
         BOOST_FOREACH(const CfgData & trg_data, rule->GetTrgData())
             BOOST_FOREACH(WordId trgid, trg_data.words)
                 if(-1 - trgid >= (int)src_data.syms.size())
-- 
2.43.0


From 4927e00f19e0c4052efb774ea943f0d6fcab92f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:07 +0000
Subject: [PATCH 22/52] fix: JSON target words that are numbers stay words

---
 src/lib/tree-io.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/tree-io.cc b/src/lib/tree-io.cc
index a8c72e6..a6628ec 100644
--- a/src/lib/tree-io.cc
+++ b/src/lib/tree-io.cc
@@ -233,7 +233,8 @@ HyperGraph * JSONTreeIO::ReadTree(istream & in) {
                 try {
                     BOOST_FOREACH(ptree::value_type &x, t.second.get_child("words")) {
                         int val = x.second.get<int>("", INT_MAX);
-                        if(val == INT_MAX)
+                        // Only variables are numbers, and they are negative
+                        if(val >= 0)
                             val = Dict::WID(x.second.get<string>(""));
                         trg_data.words.push_back(val);
                     }
-- 
2.43.0


From a2943c7db0de3e0261de5ecc28db78e955dd093a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:07 +0000
Subject: [PATCH 23/52] fix: escape feature names in JSON

---
 src/lib/sparse-map.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/sparse-map.cc b/src/lib/sparse-map.cc
index 416d188..8429880 100644
--- a/src/lib/sparse-map.cc
+++ b/src/lib/sparse-map.cc
@@ -30,7 +30,7 @@ std::ostream & operator<<(std::ostream & out, const SparseMap & rhs) {
     BOOST_FOREACH(const SparsePair & kv, rhs) {
         if(kv.second != 0) {
             if(count++ != 0) out << ", ";
-            out << "\"" << Dict::WSym(kv.first) << "\": " << kv.second;
+            out << Dict::WSymEscaped(kv.first) << ": " << kv.second;
         }
     }
     out << "}";
@@ -180,7 +180,7 @@ std::ostream & operator<<(std::ostream & out, const SparseVector & rhs) {
     BOOST_FOREACH(const SparsePair & kv, rhs.GetImpl()) {
         if(kv.second != 0) {
             if(count++ != 0) out << ", ";
-            out << "\"" << Dict::WSym(kv.first) << "\": " << kv.second;
+            out << Dict::WSymEscaped(kv.first) << ": " << kv.second;
         }
     }
     out << "}";
-- 
2.43.0


From 07bd324814d5ae344bf9b85913f7c2467ac869d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:07 +0000
Subject: [PATCH 24/52] fix: reject JSON forests whose node numbers are out of
 range

---
 src/lib/tree-io.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib/tree-io.cc b/src/lib/tree-io.cc
index a6628ec..f6899a9 100644
--- a/src/lib/tree-io.cc
+++ b/src/lib/tree-io.cc
@@ -187,6 +187,12 @@ void RuleTreeIO::WriteTree(const HyperGraph & tree, ostream & out) {
     WriteNode(tree.GetWords(), *tree.GetNode(0), out);
 }
 
+inline HyperNode * GetJSONNode(HyperGraph & graph, int id) {
+    if(id < 0 || id >= graph.NumNodes())
+        THROW_ERROR("Node ID out of range: " << id);
+    return graph.GetNode(id);
+}
+
 HyperGraph * JSONTreeIO::ReadTree(istream & in) {
     ptree pt;
     string line; 
@@ -199,6 +205,8 @@ HyperGraph * JSONTreeIO::ReadTree(istream & in) {
     BOOST_FOREACH(ptree::value_type &v, pt.get_child("nodes")) {
         HyperNode * node = new HyperNode;
         node->SetId(v.second.get<int>("id"));
+        if(node->GetId() < 0 || node->GetId() >= (int)pt.get_child("nodes").size())
+            THROW_ERROR("Node ID out of range: " << node->GetId());
         node->SetSym(Dict::WID(v.second.get<string>("sym")));
         ptree::const_iterator it = v.second.get_child("span").begin();
         int l = it->second.get<int>(""); int r = (++it)->second.get<int>("");
@@ -213,11 +221,11 @@ HyperGraph * JSONTreeIO::ReadTree(istream & in) {
     BOOST_FOREACH(ptree::value_type &v, pt.get_child("edges")) {
         HyperEdge * edge = new HyperEdge;
         edge->SetId(v.second.get<int>("id"));
-        edge->SetHead(ret->GetNode(v.second.get<int>("head")));
+        edge->SetHead(GetJSONNode(*ret, v.second.get<int>("head")));
         edge->GetHead()->AddEdge(edge);
         try {
             BOOST_FOREACH(ptree::value_type &t, v.second.get_child("tails"))
-                edge->AddTail(ret->GetNode(t.second.get<int>("")));
+                edge->AddTail(GetJSONNode(*ret, t.second.get<int>("")));
         } catch (ptree_bad_path e) { }
         try {
             vector<SparsePair> temp;
-- 
2.43.0


From 8bf90d158fe0244af1e05c7a10ba8a9d0a0a942b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:20 +0000
Subject: [PATCH 25/52] fix: repeated words in Egret forests get a terminal at
 each position

---
 src/include/travatar/tree-io.h |  2 +-
 src/lib/tree-io.cc             | 21 +++++++++++++--------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/include/travatar/tree-io.h b/src/include/travatar/tree-io.h
index 0f4d614..fc82a8b 100644
--- a/src/include/travatar/tree-io.h
+++ b/src/include/travatar/tree-io.h
@@ -69,7 +69,7 @@ public:
     void SetNormalize(bool normalize) { normalize_ = normalize; }
     bool GetNormalize(bool normalize) const { return normalize_; }
 private:
-    HyperNode * MakeEgretNode(const std::string & str_id, SymbolSet<int> & node_map, HyperGraph * graph);
+    HyperNode * MakeEgretNode(const std::string & str_id, const std::pair<int,int> & head_span, SymbolSet<int> & node_map, HyperGraph * graph);
 
     // Whether to normalize edge posteriors to per-node confusions (def: true)
     bool normalize_;
diff --git a/src/lib/tree-io.cc b/src/lib/tree-io.cc
index f6899a9..6788704 100644
--- a/src/lib/tree-io.cc
+++ b/src/lib/tree-io.cc
@@ -279,16 +279,21 @@ void JSONTreeIO::WriteTree(const HyperGraph & tree, ostream & out) {
     out << "]}";
 }
 
-HyperNode * EgretTreeIO::MakeEgretNode(const string & str_id, SymbolSet<int> & node_map, HyperGraph * graph) {
-    // Try to find the node
-    int id = node_map.GetId(str_id, true);
+HyperNode * EgretTreeIO::MakeEgretNode(const string & str_id, const pair<int,int> & head_span, SymbolSet<int> & node_map, HyperGraph * graph) {
+    regex node_regex("(.*)\\[(\\d+),(\\d+)\\]");
+    smatch node_match;
+    bool has_span = regex_match(str_id, node_match, node_regex);
+    // Try to find the node. Terminals have no span of their own, and the same word
+    // may appear at several positions
+    ostringstream key;
+    key << str_id;
+    if(!has_span) key << ' ' << head_span.first << ' ' << head_span.second;
+    int id = node_map.GetId(key.str(), true);
     if(id < graph->NumNodes()) return graph->GetNode(id);
     else if (id != graph->NumNodes()) THROW_ERROR("Mismatched ID numbers in MakeEgretTreeNode()");
     // Make the node if it doesn't exist
-    regex node_regex("(.*)\\[(\\d+),(\\d+)\\]");
-    smatch node_match;
     HyperNode * new_node;
-    if(!regex_match(str_id, node_match, node_regex)) {
+    if(!has_span) {
         new_node = new HyperNode(Dict::WID(str_id));
     } else {
         new_node = new HyperNode(Dict::WID(node_match[1]), 
@@ -332,14 +337,14 @@ HyperGraph * EgretTreeIO::ReadTree(istream & in) {
         istringstream iss(line);
         // Get the head
         iss >> buff;
-        HyperNode * head = MakeEgretNode(buff, node_map, ret);
+        HyperNode * head = MakeEgretNode(buff, make_pair(-1,-1), node_map, ret);
         HyperEdge * edge = new HyperEdge(head); ret->AddEdge(edge); head->AddEdge(edge);
         // The next string should always be "=>"
         iss >> buff;
         if(buff != "=>") THROW_ERROR("=> not found in Egret node string: " << line);
         // Read the tail nodes
         while(iss >> buff && buff != "|||") {
-            HyperNode * tail = MakeEgretNode(buff, node_map, ret);
+            HyperNode * tail = MakeEgretNode(buff, head->GetSpan(), node_map, ret);
             // Set terminal node's spans to those of their parent
             if(tail->GetSpan().first == -1)
                 tail->SetSpan(head->GetSpan());
-- 
2.43.0


From 8d42ce64bf4c12845309625a2b9f90314bbe5c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:07 +0000
Subject: [PATCH 26/52] fix: phrase extraction with unaligned source words and
 links outside of the sentence

---
 src/lib/hiero-extractor.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/lib/hiero-extractor.cc b/src/lib/hiero-extractor.cc
index 506e4b4..9d0e5e6 100644
--- a/src/lib/hiero-extractor.cc
+++ b/src/lib/hiero-extractor.cc
@@ -36,7 +36,9 @@ bool HieroExtractor::IsRuleValid(HieroRule* rule, int max_terminals) {
 vector< vector<HieroRule*> > HieroExtractor::ExtractHieroRule(const Alignment & align, const Sentence & source, 
         const Sentence & target) const
 {
-    const SourceAlignment & src_align = align.GetSrcAlignments();
+    SourceAlignment src_align = align.GetSrcAlignments();
+    // Unaligned words at the end of the source have no entry yet
+    if(src_align.size() < source.size()) src_align.resize(source.size());
     vector< vector<HieroRule*> > ret;
     HieroExtractor::PhrasePairs filtered_pairs;
     HieroExtractor::PhrasePairs pairs;
@@ -115,9 +117,14 @@ vector< vector<HieroRule*> > HieroExtractor::ExtractHieroRule(const Alignment &
 
 // The implementation of phrase extraction algorithm.
 // The algorithm to extract all consistent phrase pairs from a word-aligned sentence pair
-HieroExtractor::PhrasePairs HieroExtractor::ExtractPhrase(const SourceAlignment & s2t, const Sentence & source, 
+HieroExtractor::PhrasePairs HieroExtractor::ExtractPhrase(const SourceAlignment & align, const Sentence & source, 
         const Sentence & target) const
 {
+    if(align.size() > source.size())
+        THROW_ERROR("Alignment outside of the source: " << align.size() << " > " << source.size());
+    // Unaligned words at the end of the source may have no entry
+    SourceAlignment s2t = align;
+    s2t.resize(source.size());
     vector<set<int> > t2s = vector<set<int> >();
     HieroExtractor::PhrasePairs ret = HieroExtractor::PhrasePairs();
 
@@ -127,8 +134,11 @@ HieroExtractor::PhrasePairs HieroExtractor::ExtractPhrase(const SourceAlignment
     }
     for (unsigned s=0; s < s2t.size(); ++s) {
         set<int> ts = s2t[s];
-        BOOST_FOREACH(int t, ts)
+        BOOST_FOREACH(int t, ts) {
+            if(t < 0 || t >= (int)t2s.size())
+                THROW_ERROR("Alignment outside of the target: " << t << " >= " << t2s.size());
             t2s[t].insert((int)s);
+        }
     }
 
     // Phrase Extraction Algorithm 
@@ -140,6 +150,8 @@ HieroExtractor::PhrasePairs HieroExtractor::ExtractPhrase(const SourceAlignment
                 BOOST_FOREACH(int _t, s2t[s_end])
                     tp[_t]++;
             }
+            // Phrases must contain at least one alignment
+            if (tp.empty()) continue;
             int t_begin = MapMinKey(tp);
             int t_end = MapMaxKey(tp);
             if (QuasiConsecutive(t_begin,t_end,tp,t2s)) {
-- 
2.43.0


From 184d39e1ec3ffd1705bf42e7da3c52c2c055aff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:26 +0000
Subject: [PATCH 27/52] fix: FilePiece::get reports the end of the file only
 when no character is left

---
 src/kenlm/util/file_piece.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kenlm/util/file_piece.hh b/src/kenlm/util/file_piece.hh
index 5495ddc..9b25f5b 100644
--- a/src/kenlm/util/file_piece.hh
+++ b/src/kenlm/util/file_piece.hh
@@ -45,7 +45,7 @@ class FilePiece {
     char get() {
       if (position_ == position_end_) {
         Shift();
-        if (at_end_) throw EndOfFileException();
+        if (position_ == position_end_) throw EndOfFileException();
       }
       return *(position_++);
     }
-- 
2.43.0


From 971422942a1614c115ae6def4f33e8d2b5564f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:47 +0000
Subject: [PATCH 28/52] fix: perceptron weights are not regularised for steps
 before they were set

---
 src/lib/weights-perceptron.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/weights-perceptron.cc b/src/lib/weights-perceptron.cc
index 7758465..b26384d 100644
--- a/src/lib/weights-perceptron.cc
+++ b/src/lib/weights-perceptron.cc
@@ -27,6 +27,7 @@ void WeightsPerceptron::Update(
             Real new_val = GetCurrent(change_val.first) + change_val.second * rate_;
             // And ensure we are in the correct range
             current_[change_val.first] = InRange(new_val, GetRange(change_val.first));
+            last_update_[change_val.first] = curr_iter_;
         }
     }
     curr_iter_++;
-- 
2.43.0


From ebfe34ff601938b826a6e742b51fd396a8b0d235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:47 +0000
Subject: [PATCH 29/52] fix: WeightsPerceptron::GetFinal erased weights while
 iterating over them

---
 src/lib/weights-perceptron.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/weights-perceptron.cc b/src/lib/weights-perceptron.cc
index b26384d..e2e403a 100644
--- a/src/lib/weights-perceptron.cc
+++ b/src/lib/weights-perceptron.cc
@@ -10,8 +10,12 @@ inline Real InRange(Real val, pair<Real,Real> range) {
 
 // Get the final values of the weights
 const SparseMap & WeightsPerceptron::GetFinal() {
-    BOOST_FOREACH(SparseMap::value_type val, current_)
-        val.second = GetCurrent(val.first);
+    // GetCurrent may erase weights that become zero, so save the keys first
+    vector<SparseMap::key_type> keys;
+    BOOST_FOREACH(const SparseMap::value_type & val, current_)
+        keys.push_back(val.first);
+    BOOST_FOREACH(const SparseMap::key_type & key, keys)
+        GetCurrent(key);
     return current_;
 }
 
-- 
2.43.0


From e9c0eca4e63f547e8792450a506c3cc084e3fe69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 30/52] fix: looking at averaged perceptron weights changed
 their average

---
 src/lib/weights-average-perceptron.cc | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/src/lib/weights-average-perceptron.cc b/src/lib/weights-average-perceptron.cc
index 6308526..45cf786 100644
--- a/src/lib/weights-average-perceptron.cc
+++ b/src/lib/weights-average-perceptron.cc
@@ -63,22 +63,7 @@ Real WeightsAveragePerceptron::GetCurrent(const SparseMap::key_type & key) {
     // Non-existant weights are zero
     if(it == current_.end())
         return 0.0;
-    // Find the difference between the last update
-    int diff = curr_iter_ - last_update_[key];
-    if(diff != 0) {
-        Real reg = diff*l1_coeff_;
-        // Find the value
-        if(it->second > 0)
-            it->second = max(it->second-reg,(Real)0.0);
-        else
-            it->second = min(it->second+reg,(Real)0.0);
-        it->second = InRange(it->second, GetRange(key));
-        last_update_[key] = curr_iter_;
-        if(it->second == 0) {
-            current_.erase(it);
-            return 0.0;
-        }
-    }
-    // std::cerr << " RET: " << it->second << std::endl;
-    return it->second;
+    // There is no regularization, so the weight is unchanged since the last update.
+    // Note that last_update_ belongs to the average, and must not be touched here
+    return InRange(it->second, GetRange(key));
 }
-- 
2.43.0


From 44e5253401f92da27d8a7d6fb21c188eceaeb778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 31/52] fix: adagrad weights stay in their range and are not
 regularised for steps before they were set

---
 src/lib/weights-adagrad.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/weights-adagrad.cc b/src/lib/weights-adagrad.cc
index 5ed5d5b..4617358 100644
--- a/src/lib/weights-adagrad.cc
+++ b/src/lib/weights-adagrad.cc
@@ -4,6 +4,10 @@
 using namespace std;
 using namespace travatar;
 
+inline Real InRange(Real val, pair<Real,Real> range) {
+    return min(max(val,range.first), range.second);
+}
+
 // The pairwise weight update rule
 void WeightsAdagrad::Update(
     const SparseVector & oracle, Real oracle_score, Real oracle_eval,
@@ -17,7 +21,8 @@ void WeightsAdagrad::Update(
             Real new_val = GetCurrent(change_val.first);
             varinv_[change_val.first] += change_val.second * change_val.second;
             new_val += rate_ * sqrt(1/varinv_[change_val.first]) * change_val.second;
-            current_[change_val.first] = new_val;
+            current_[change_val.first] = InRange(new_val, GetRange(change_val.first));
+            last_update_[change_val.first] = curr_iter_;
         }
     }
     PRINT_DEBUG(current_ << std::endl, 2);
-- 
2.43.0


From 4837e09df8ce4ee825888b48bcd1ec94bd6e2e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 32/52] fix: Weights::Adjust evaluates the hypothesis, not the
 source

---
 src/lib/weights.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/weights.cc b/src/lib/weights.cc
index 08a0a5e..c489821 100644
--- a/src/lib/weights.cc
+++ b/src/lib/weights.cc
@@ -33,7 +33,7 @@ void Weights::Adjust(const Sentence & src,
         std::pair<Real,Real> score(path->GetScore(), -REAL_MAX);
         BOOST_FOREACH(const Sentence & ref, refs)
             score.second = std::max(
-                            eval.CalculateStats(ref, src)->ConvertToScore(),
+                            eval.CalculateStats(ref, my_hyp)->ConvertToScore(),
                             score.second);
         scores.push_back(score);
         features.push_back(new SparseVector(path->GetFeatures()));
-- 
2.43.0


From eeae96885f10dd0730b14ce24d43fa9b057be95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:44 +0000
Subject: [PATCH 33/52] fix: incremental LM composition keeps the tails of a
 rule in source order

---
 src/lib/lm-composer-incremental.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib/lm-composer-incremental.cc b/src/lib/lm-composer-incremental.cc
index 1082c19..42c5bc8 100644
--- a/src/lib/lm-composer-incremental.cc
+++ b/src/lib/lm-composer-incremental.cc
@@ -46,8 +46,10 @@ NBestComplete Forest::Complete(std::vector<PartialEdge> &partial) {
             best = add;
         old_edge = (HyperEdge*)add.GetNote().vp;
         Real edge_score = add.GetScore();
-        // Add the new tails in *source* order 
-        vector<HyperNode*> tails;
+        // Add the new tails in *source* order. The non-terminals of the partial
+        // edge are in the order in which they appear on the target side.
+        vector<HyperNode*> tails(old_edge ? old_edge->GetTails().size() : 1, (HyperNode*)NULL);
+        int nt_pos = 0;
         Sentence wids;
         vector<WordId> node_id;
         if(old_edge) {
@@ -61,9 +63,9 @@ NBestComplete Forest::Complete(std::vector<PartialEdge> &partial) {
         BOOST_FOREACH(WordId wid, wids) {
             if(wid < 0) {
                 int tid = -1-wid;
-                const PartialVertex & part = add.NT()[tid];
+                const PartialVertex & part = add.NT()[nt_pos++];
                 HyperNode* child = (HyperNode*)part.End();
-                tails.push_back(child);
+                tails[tid] = child;
                 edge_score -= child->GetViterbiScore();
                 // Keep track of the node ID
                 node_id[tid] = child->GetId();
-- 
2.43.0


From 8ee316b81d95999a0dcf844dc7124d17bd8d52d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:35 +0000
Subject: [PATCH 34/52] fix: hash of left chart states hashes the pointer as
 data, so that tries do not collide

---
 src/kenlm/lm/state.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kenlm/lm/state.hh b/src/kenlm/lm/state.hh
index f6c51d6..36e8816 100644
--- a/src/kenlm/lm/state.hh
+++ b/src/kenlm/lm/state.hh
@@ -84,10 +84,10 @@ struct Left {
 };
 
 inline uint64_t hash_value(const Left &left) {
-  unsigned char add[2];
-  add[0] = left.length;
-  add[1] = left.full;
-  return util::MurmurHashNative(add, 2, left.length ? left.pointers[left.length - 1] : 0);
+  // The pointer is hashed as data: in tries it is a small index, and as a seed it
+  // would cancel out against the length.
+  uint64_t pointer = left.length ? left.pointers[left.length - 1] : 0;
+  return util::MurmurHashNative(&pointer, sizeof(pointer), (left.length << 1) | (left.full ? 1 : 0));
 }
 
 struct ChartState {
-- 
2.43.0


From f7606b3006c138422861eb94fe8cd30e2887cdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:58 +0000
Subject: [PATCH 35/52] fix: chart states of nothing and of an unknown word are
 different

---
 src/kenlm/lm/state.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kenlm/lm/state.hh b/src/kenlm/lm/state.hh
index 36e8816..7f1687c 100644
--- a/src/kenlm/lm/state.hh
+++ b/src/kenlm/lm/state.hh
@@ -56,14 +56,14 @@ inline uint64_t hash_value(const State &state, uint64_t seed = 0) {
 struct Left {
   bool operator==(const Left &other) const {
     return 
-      length == other.length &&
-      (!length || (pointers[length - 1] == other.pointers[length - 1] && full == other.full));
+      length == other.length && full == other.full &&
+      (!length || pointers[length - 1] == other.pointers[length - 1]);
   }
 
   int Compare(const Left &other) const {
     if (length < other.length) return -1;
     if (length > other.length) return 1;
-    if (length == 0) return 0; // Must be full.
+    if (length == 0) return (int)full - (int)other.full; // Not full: nothing scored yet.
     if (pointers[length - 1] > other.pointers[length - 1]) return 1;
     if (pointers[length - 1] < other.pointers[length - 1]) return -1;
     return (int)full - (int)other.full;
-- 
2.43.0


From d6b07b78ce473760198468a43df282e7a51a86dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:59 +0000
Subject: [PATCH 36/52] fix: configuration values with trailing garbage or out
 of range are not numbers

---
 src/lib/config-base.cc | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/lib/config-base.cc b/src/lib/config-base.cc
index 29e833f..9fd8d04 100644
--- a/src/lib/config-base.cc
+++ b/src/lib/config-base.cc
@@ -2,6 +2,10 @@
 #include <travatar/global-debug.h>
 #include <boost/algorithm/string.hpp>
 #include <boost/lexical_cast.hpp>
+#include <cerrno>
+#include <cctype>
+#include <climits>
+#include <cstdlib>
 #include <fstream>
 
 using namespace std;
@@ -94,6 +98,13 @@ void ConfigBase::AddConfigEntry(const std::string & name, const std::string & va
     optArgs_.insert(entry);
 }
 
+// True if a number was read from the string and nothing but space follows it
+static bool IsRest(const std::string & str, const char * end) {
+    if(end == str.c_str()) return false;
+    while(isspace((unsigned char)*end)) end++;
+    return end == str.c_str() + str.size();
+}
+
 // Getter functions
 std::vector<std::string> ConfigBase::GetStringArray(const std::string & name) const {
     ConfigMap::const_iterator it = optArgs_.find(name);
@@ -119,15 +130,18 @@ std::vector<int> ConfigBase::GetIntArray(const std::string & name) const {
 }
 int ConfigBase::GetInt(const std::string & name) const {
     std::string str = GetString(name);
-    int ret = atoi(str.c_str());
-    if(ret == 0 && str != "0" && str != "00" && str != "000" && str != "0000")
+    char * end;
+    errno = 0;
+    long ret = strtol(str.c_str(), &end, 10);
+    if(errno == ERANGE || ret < INT_MIN || ret > INT_MAX || !IsRest(str, end))
         DIE_HELP("Value '"<<str<<"' for argument "<<name<<" was not an integer");
     return ret;
 }
 Real ConfigBase::GetReal(const std::string & name) const {
     std::string str = GetString(name);
-    Real ret = atof(str.c_str());
-    if(ret == 0 && str != "0" && str != "0.0")
+    char * end;
+    Real ret = strtod(str.c_str(), &end);
+    if(!IsRest(str, end))
         DIE_HELP("Value '"<<str<<"' for argument "<<name<<" was not float");
     return ret;
 }
-- 
2.43.0


From 16f62b4c82d6cac152fc9aaa194e4fb1be901b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:59 +0000
Subject: [PATCH 37/52] fix: configuration setters store values the getters
 read back

---
 src/lib/config-base.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/config-base.cc b/src/lib/config-base.cc
index 9fd8d04..12572bf 100644
--- a/src/lib/config-base.cc
+++ b/src/lib/config-base.cc
@@ -7,6 +7,7 @@
 #include <climits>
 #include <cstdlib>
 #include <fstream>
+#include <iomanip>
 
 using namespace std;
 using namespace travatar;
@@ -171,8 +172,8 @@ void ConfigBase::SetInt(const std::string & name, int val) {
     std::ostringstream oss; oss << val; SetString(name,oss.str());
 }
 void ConfigBase::SetReal(const std::string & name, Real val) {
-    std::ostringstream oss; oss << val; SetString(name,oss.str());
+    std::ostringstream oss; oss << setprecision(17) << val; SetString(name,oss.str());
 }
 void ConfigBase::SetBool(const std::string & name, bool val) {
-    std::ostringstream oss; oss << val; SetString(name,oss.str());
+    SetString(name, val ? "true" : "false");
 }
-- 
2.43.0


From d7018040361cb3311104fa8369694543a4017778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:46 +0000
Subject: [PATCH 38/52] fix: translation edit distance tables overflowed for
 sentences of a thousand words

---
 src/tercpp/tercalc.cpp | 10 ++--------
 src/tercpp/tercalc.h   |  4 ++--
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/tercpp/tercalc.cpp b/src/tercpp/tercalc.cpp
index 6966933..ce3df9b 100755
--- a/src/tercpp/tercalc.cpp
+++ b/src/tercpp/tercalc.cpp
@@ -608,14 +608,8 @@ namespace TERCpp
         NBR_BS_APPELS++;
 
 	
-        for ( i = 0; i <= ( int ) ref.size(); i++ )
-        {
-            for ( j = 0; j <= ( int ) hyp.size(); j++ )
-            {
-                S[i][j] = -1.0;
-                P[i][j] = '0';
-            }
-        }
+        S.assign ( ref.size() + 1, vector<double> ( hyp.size() + 1, -1.0 ) );
+        P.assign ( ref.size() + 1, vector<char> ( hyp.size() + 1, '0' ) );
         S[0][0] = 0.0;
         for ( j = 0; j <= ( int ) hyp.size(); j++ )
         {
diff --git a/src/tercpp/tercalc.h b/src/tercpp/tercalc.h
index c136f78..5a3b6c1 100755
--- a/src/tercpp/tercalc.h
+++ b/src/tercpp/tercalc.h
@@ -41,8 +41,8 @@ namespace TERCpp
             bool PRINT_DEBUG;
 
             // Utilisés dans minDistEdit et ils ne sont pas réajustés 
-            double S[1000][1000];
-            char P[1000][1000];
+            vector< vector<double> > S;
+            vector< vector<char> > P;
             vector<vecInt> refSpans;
             vector<vecInt> hypSpans;
             int TAILLE_BEAM;
-- 
2.43.0


From c4b6ee695e63d483f5db6a295da702f5f9e15b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:37 +0000
Subject: [PATCH 39/52] fix: splitting words lost the scores of preterminal
 edges and ignored nodes with several edges

---
 src/lib/word-splitter.cc | 51 +++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 29 deletions(-)

diff --git a/src/lib/word-splitter.cc b/src/lib/word-splitter.cc
index 95fd738..c74e65f 100644
--- a/src/lib/word-splitter.cc
+++ b/src/lib/word-splitter.cc
@@ -38,37 +38,30 @@ HyperGraph * WordSplitter::TransformGraph(const HyperGraph & hg) const {
         std::pair<int,int> span = node->GetSpan(),
                            new_span(*ids[span.first].begin(),
                                     *ids[span.second-1].rbegin()+1);
-        // If it is a non-terminal
-        // that has been split, create new nodes as necessary
-        if(node->IsPreTerminal() && span.first == span.second-1 && ids[span.first].size() > 1) {
-            pair<int, WordId> node_idx = make_pair(span.first,node->GetSym());
-            if(new_nodes.find(node_idx) == new_nodes.end()) {
-                vector<HyperNode*> split_nodes;
-                for(int i = new_span.first; i < new_span.second; i++) {
-                    // Add a new pre-terminal
-                    HyperNode* new_pre = new HyperNode(node->GetSym(), node->GetTrgSym(), make_pair(i,i+1));
-                    ret->AddNode(new_pre);
-                    split_nodes.push_back(new_pre);
-                    // Add a new terminal
-                    HyperNode* new_term = new HyperNode(new_wids[i], -1, make_pair(i,i+1));
-                    ret->AddNode(new_term);
-                    // Add a new edge
-                    HyperEdge* new_edge = new HyperEdge(new_pre);
-                    new_edge->AddTail(new_term);
-                    ret->AddEdge(new_edge); new_pre->AddEdge(new_edge);
+        // For each edge to a word that has been split, create new nodes as necessary
+        if(span.first == span.second-1 && ids[span.first].size() > 1) {
+            BOOST_FOREACH(HyperEdge* edge, node->GetEdges()) {
+                if(edge->NumTails() != 1 || !edge->GetTail(0)->IsTerminal()) continue;
+                pair<int, WordId> node_idx = make_pair(span.first,node->GetSym());
+                if(new_nodes.find(node_idx) == new_nodes.end()) {
+                    vector<HyperNode*> split_nodes;
+                    for(int i = new_span.first; i < new_span.second; i++) {
+                        // Add a new pre-terminal
+                        HyperNode* new_pre = new HyperNode(node->GetSym(), node->GetTrgSym(), make_pair(i,i+1));
+                        ret->AddNode(new_pre);
+                        split_nodes.push_back(new_pre);
+                        // Add a new terminal
+                        HyperNode* new_term = new HyperNode(new_wids[i], -1, make_pair(i,i+1));
+                        ret->AddNode(new_term);
+                        // Add a new edge
+                        HyperEdge* new_edge = new HyperEdge(new_pre);
+                        new_edge->AddTail(new_term);
+                        ret->AddEdge(new_edge); new_pre->AddEdge(new_edge);
+                    }
+                    new_nodes.insert(make_pair(node_idx, split_nodes));
                 }
-                new_nodes.insert(make_pair(node_idx, split_nodes));
+                edge->SetTails(new_nodes[node_idx]);
             }
-            vector<HyperEdge*> & edges = node->GetEdges();
-            HyperEdge* edge = new HyperEdge(node);
-            edge->SetId(edges[0]->GetId());
-            delete ret->GetEdges()[edge->GetId()];
-            ret->GetEdges()[edge->GetId()] = edge;
-            BOOST_FOREACH(HyperNode* new_node, new_nodes[node_idx]) {
-                edge->AddTail(new_node);
-            }
-            // delete edges[0]; 
-            edges[0] = edge;
         }
         node->SetSpan(new_span);
     }
-- 
2.43.0


From 4d2698f5b4aeee29539684716f8e0a87054f69f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 40/52] fix: a job waiting to be submitted while the thread
 pool stops was lost or never woke up

---
 src/lib/thread-pool.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/thread-pool.cc b/src/lib/thread-pool.cc
index a5674a7..a65fb83 100644
--- a/src/lib/thread-pool.cc
+++ b/src/lib/thread-pool.cc
@@ -36,10 +36,10 @@ void ThreadPool::Run() {
 
 void ThreadPool::Submit(Task* task) {
     boost::mutex::scoped_lock lock(mutex_);
+    while(!stopping_ && queue_limit_ && (int)tasks_.size() >= queue_limit_)
+        thread_available_.wait(lock);
     if(stopping_)
         THROW_ERROR("Cannot accept new jobs while ThreadPool is stopping");
-    while(queue_limit_ && (int)tasks_.size() >= queue_limit_)
-        thread_available_.wait(lock);
     tasks_.push(task);
     thread_needed_.notify_all();
 }
@@ -58,6 +58,8 @@ void ThreadPool::Stop(bool process_remaining) {
         if(stopped_) return;
         stopping_ = true;
     }
+    // Wake up anyone waiting to submit a job that is not accepted any more
+    thread_available_.notify_all();
     if(process_remaining) {
         boost::mutex::scoped_lock lock(mutex_);
         while(!tasks_.empty() && !stopped_)
-- 
2.43.0


From a9477e9ec033a73f1b6ec21b5693b42f815f1788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 41/52] fix: waiting for the thread pool could hang or return
 while tasks were running

---
 src/include/travatar/thread-pool.h |  2 ++
 src/lib/thread-pool.cc             | 11 ++++++-----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/include/travatar/thread-pool.h b/src/include/travatar/thread-pool.h
index a2ecc5c..9bcb9d7 100644
--- a/src/include/travatar/thread-pool.h
+++ b/src/include/travatar/thread-pool.h
@@ -45,6 +45,8 @@ protected:
     bool stopped_;
     bool stopping_;
     bool delete_tasks_;
+    // The number of tasks being executed
+    int running_;
     int queue_limit_;
 
 };
diff --git a/src/lib/thread-pool.cc b/src/lib/thread-pool.cc
index a65fb83..034a74d 100644
--- a/src/lib/thread-pool.cc
+++ b/src/lib/thread-pool.cc
@@ -8,7 +8,7 @@ using namespace boost;
 
 ThreadPool::ThreadPool(int num_threads, int queue_limit) :
         stopped_(false), stopping_(false), delete_tasks_(true),
-        queue_limit_(queue_limit) {
+        running_(0), queue_limit_(queue_limit) {
     for(int i = 0; i < num_threads; i++)
         threads_.create_thread(bind(&ThreadPool::Run, this));
 }
@@ -23,12 +23,15 @@ void ThreadPool::Run() {
             if(!stopped_ && !tasks_.empty()) {
                 task = tasks_.front();
                 tasks_.pop();
+                ++running_;
             }
         }
         if(task) {
             task->Run();
             if(delete_tasks_)
                 delete task;
+            boost::mutex::scoped_lock lock(mutex_);
+            --running_;
         }
         thread_available_.notify_all();
     }
@@ -45,11 +48,9 @@ void ThreadPool::Submit(Task* task) {
 }
 
 void ThreadPool::Wait() {
-    while(!tasks_.empty()) {
-        boost::mutex::scoped_lock lock(mutex_);
+    boost::mutex::scoped_lock lock(mutex_);
+    while(!tasks_.empty() || running_ > 0)
         thread_available_.wait(lock);
-    }
-    sleep(1);
 }
 
 void ThreadPool::Stop(bool process_remaining) {
-- 
2.43.0


From 473af512f6fcd5527e17d290bef280c15949c681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:02 +0000
Subject: [PATCH 42/52] fix: adding log probabilities overflowed when the
 largest is neither first nor last

---
 src/include/travatar/softmax.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/include/travatar/softmax.h b/src/include/travatar/softmax.h
index f9f15f0..f7d1b1c 100644
--- a/src/include/travatar/softmax.h
+++ b/src/include/travatar/softmax.h
@@ -9,8 +9,9 @@ namespace travatar {
 inline Real AddLogProbs(const std::vector<Real> & probs) {
     if(probs.size() == 0)
         return -REAL_MAX;
-    const unsigned size = probs.size();
-    Real myMax = std::max(probs[0],probs[size-1]), norm=0;
+    Real myMax = probs[0], norm = 0;
+    for(unsigned i = 1; i < probs.size(); i++)
+        myMax = std::max(myMax, probs[i]);
     for(unsigned i = 0; i < probs.size(); i++)
         norm += exp(probs[i]-myMax);
     return log(norm)+myMax;
-- 
2.43.0


From 559b69ff8f82a6cfe00470f301d08e6e11358b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 43/52] fix: the gradient for L-BFGS tuning accumulated over
 evaluations

---
 src/lib/gradient-xeval.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/gradient-xeval.cc b/src/lib/gradient-xeval.cc
index ff1a78b..c81cb50 100644
--- a/src/lib/gradient-xeval.cc
+++ b/src/lib/gradient-xeval.cc
@@ -132,6 +132,9 @@ void GradientXeval::CalcBleuGradient(
 
 Real GradientXeval::CalcGradient(size_t n, const Real * x, Real * g) const {
 
+    // The optimizer passes the gradient of its last evaluation
+    fill(g, g+n, 0.0);
+
     // Get the scaling factor
     Real gamma = (dense_scale_id_ == -1 ? 1.0 : x[dense_scale_id_]);
     if(gamma == 0.0) gamma = 1.0;
-- 
2.43.0


From 638602b520eda32ad76cbb6525ba06c736dae673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 44/52] fix: the gradient of averaged measures truncated the
 expected denominator to an integer

---
 src/include/travatar/eval-measure.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/travatar/eval-measure.h b/src/include/travatar/eval-measure.h
index 7734e68..c745528 100644
--- a/src/include/travatar/eval-measure.h
+++ b/src/include/travatar/eval-measure.h
@@ -72,7 +72,7 @@ public:
     virtual std::string GetIdString() const { return "AVG"; }
     // Getters
     Real GetVal() const { return vals_[0]; }
-    int GetDenom() const { return vals_[1]; }
+    Real GetDenom() const { return vals_[1]; }
 private:
 };
 
-- 
2.43.0


From 4d7eba79a80c73b78fcfbef7fb9981b12548efb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 45/52] fix: entropy regularization had opposite signs in the
 objective and its gradient

---
 src/lib/gradient-xeval.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/gradient-xeval.cc b/src/lib/gradient-xeval.cc
index c81cb50..cc46c14 100644
--- a/src/lib/gradient-xeval.cc
+++ b/src/lib/gradient-xeval.cc
@@ -212,7 +212,7 @@ Real GradientXeval::CalcGradient(size_t n, const Real * x, Real * g) const {
             for(int k = 0; k < K; k++) {
                 Real my_log2 = max(LogZero(p_i_k[i][k])/log2,-REAL_MAX);
                 Real val = (my_log2 + 1) * p_i_k[i][k];
-                score += my_log2 * p_i_k[i][k] * ent_coeff_;
+                score -= my_log2 * p_i_k[i][k] * ent_coeff_;
                 for(int kprime = 0; kprime < K; kprime++)
                     ps[kprime] += val * ((kprime == k ? 1.0 : 0.0) - p_i_k[i][kprime]);
             }
-- 
2.43.0


From 826cb3c8ba089fba746c9c0b83f351df8ba0af4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 46/52] fix: the gradient of the inverted translation error
 rate had the wrong sign

---
 src/include/travatar/eval-measure-ter.h | 1 +
 src/include/travatar/eval-measure.h     | 2 ++
 src/lib/gradient-xeval.cc               | 2 +-
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/include/travatar/eval-measure-ter.h b/src/include/travatar/eval-measure-ter.h
index 98f3744..c8cfb1a 100644
--- a/src/include/travatar/eval-measure-ter.h
+++ b/src/include/travatar/eval-measure-ter.h
@@ -19,6 +19,7 @@ public:
         Real score = vals_[1] ? vals_[0]/vals_[1] : 0;
         return inverse_ ? 1-score : score;
     }
+    virtual Real GetSlope() const { return inverse_ ? -1.0 : 1.0; }
     EvalStatsPtr Clone() const { return EvalStatsPtr(new EvalStatsTer(vals_[0], vals_[1], inverse_)); }
 protected:
     bool inverse_;
diff --git a/src/include/travatar/eval-measure.h b/src/include/travatar/eval-measure.h
index c745528..0fbbb3f 100644
--- a/src/include/travatar/eval-measure.h
+++ b/src/include/travatar/eval-measure.h
@@ -73,6 +73,8 @@ public:
     // Getters
     Real GetVal() const { return vals_[0]; }
     Real GetDenom() const { return vals_[1]; }
+    // The derivative of the score with respect to the average
+    virtual Real GetSlope() const { return 1.0; }
 private:
 };
 
diff --git a/src/lib/gradient-xeval.cc b/src/lib/gradient-xeval.cc
index cc46c14..3e3c908 100644
--- a/src/lib/gradient-xeval.cc
+++ b/src/lib/gradient-xeval.cc
@@ -38,7 +38,7 @@ void GradientXeval::CalcAvgGradient(
             EvalStatsAverage * stats_i_k_avg = (EvalStatsAverage*)all_stats_[i][k].get();
             PRINT_DEBUG("Stats i=" << i << ", k=" << k << ": " << stats_i_k_avg->ConvertToString() << endl, 4);
             // Calculate the derivative of xeval
-            Real d_xeval_logpik = p_i_k[i][k]*stats_i_k_avg->GetVal()/stats_avg->GetDenom();
+            Real d_xeval_logpik = stats_avg->GetSlope()*p_i_k[i][k]*stats_i_k_avg->GetVal()/stats_avg->GetDenom();
             // Now multiply this value for every k'
             for(int kprime = 0; kprime < K; kprime++)
                 d_xeval_dsikprime[kprime] += 
-- 
2.43.0


From 99fa51eef520ae71505e3d39dcbe6518f2f5749b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 47/52] fix: the gradient of smoothed BLEU also smoothed
 unigrams and lengths

---
 src/include/travatar/eval-measure-bleu.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/include/travatar/eval-measure-bleu.h b/src/include/travatar/eval-measure-bleu.h
index dac2f4a..90b7903 100644
--- a/src/include/travatar/eval-measure-bleu.h
+++ b/src/include/travatar/eval-measure-bleu.h
@@ -49,9 +49,10 @@ public:
     Real GetAvgLogPrecision() const;
     Real GetLengthRatio() const;
     int GetNgramOrder() const { return vals_.size()/3; }
-    Real GetMatch(int n) const { return vals_[3*n]+smooth_; }
-    Real GetSysCount(int n) const { return vals_[3*n+1]+smooth_; }
-    Real GetRefCount(int n) const { return vals_[3*n+2]+smooth_; }
+    // Like in the score, unigrams are not smoothed
+    Real GetMatch(int n) const { return vals_[3*n]+(n==0?0:smooth_); }
+    Real GetSysCount(int n) const { return vals_[3*n+1]+(n==0?0:smooth_); }
+    Real GetRefCount(int n) const { return vals_[3*n+2]+(n==0?0:smooth_); }
 private:
     Real smooth_;
     Real prec_weight_;
-- 
2.43.0


From 229c105c9d390ae88e7b355b923472b121712626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 48/52] fix: target-side rule lookup of phrases over both words
 and phrases

---
 src/lib/lookup-table.cc | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/lib/lookup-table.cc b/src/lib/lookup-table.cc
index 4342e38..7f9b85e 100644
--- a/src/lib/lookup-table.cc
+++ b/src/lib/lookup-table.cc
@@ -269,17 +269,26 @@ HyperGraph * LookupTable::TransformGraphSrcTrg(const HyperGraph & parse) const {
                     HyperEdge * parse_edge = new HyperEdge(parse_node);
                     ostringstream oss;
                     if (save_src_str_) oss << Dict::WSym(input_node->GetSym()) << " ("; 
-                    vector<WordId> trg(edge->GetTails().size());
-                    for (size_t i=0; i < trg.size(); ++i) {
-                        if(save_src_str_) oss << " x" << i << ':' << Dict::WSym(edge->GetTail(i)->GetSym()); 
-                        trg[i] = -1 - i;
+                    // Only non-terminals have a node to connect to
+                    vector<WordId> trg;
+                    BOOST_FOREACH(HyperNode* tail, edge->GetTails()) {
+                        if(tail->IsTerminal()) continue;
+                        GeneralMap::const_iterator child = general_map.find(tail->GetId());
+                        if(child == general_map.end())
+                            THROW_ERROR("Nodes must come before their children in the input.");
+                        if(save_src_str_) oss << " x" << trg.size() << ':' << Dict::WSym(tail->GetSym()); 
+                        trg.push_back(-1 - (int)trg.size());
+                        parse_edge->AddTail(child->second);
+                    }
+                    // With no non-terminals, translate the node to itself
+                    if (trg.size() == 0) {
+                        if(input_node->GetSpan().second - input_node->GetSpan().first != 1)
+                            THROW_ERROR("Multi-terminal edges are not supported.");
+                        trg.push_back(parse.GetWord(input_node->GetSpan().first));
+                        if(save_src_str_) oss << " \"" << Dict::WSym(trg[0]) << '"';
                     }
                     parse_edge->SetRule(GetUnknownRule(), edge->GetFeatures());
                     parse_edge->SetTrgData(CfgDataVector(GlobalVars::trg_factors,trg));
-                    BOOST_FOREACH(HyperNode* tail, edge->GetTails()) {
-                        HyperNode* child = general_map.find(tail->GetId())->second;
-                        parse_edge->AddTail(child);
-                    }
                     if (save_src_str_) {
                         oss << " )";
                         parse_edge->SetSrcStr(oss.str());
-- 
2.43.0


From ee86743a69fabfbe1b02285506121115ebf082c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 49/52] fix: target-side rule lookup keeps variables without
 target labels

---
 src/lib/lookup-table.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/lookup-table.cc b/src/lib/lookup-table.cc
index 7f9b85e..50910c2 100644
--- a/src/lib/lookup-table.cc
+++ b/src/lib/lookup-table.cc
@@ -188,7 +188,7 @@ HyperGraph * LookupTable::TransformGraphSrcTrg(const HyperGraph & parse) const {
                 HyperEdge * next_edge = new HyperEdge(head_node);
                 unsigned int penalty = 0;
                 bool child_ok = true;
-                for (size_t i=0; child_ok && i < trg_data[0].GetSymSize(); ++i) {
+                for (size_t i=0; child_ok && i < non_terms.size(); ++i) {
                     // the head of the child's nt
                     vector<WordId> child_head(trg_data.size(),0);
                     for (size_t j=0; j < trg_data.size(); ++j) {
-- 
2.43.0


From a038a42939a1e2d1815f6d53cd9cf3cc8866a769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 50/52] fix: target-side rule lookup deleted nodes that were in
 use

---
 src/lib/lookup-table.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/lookup-table.cc b/src/lib/lookup-table.cc
index 50910c2..17cc3d7 100644
--- a/src/lib/lookup-table.cc
+++ b/src/lib/lookup-table.cc
@@ -223,8 +223,10 @@ HyperGraph * LookupTable::TransformGraphSrcTrg(const HyperGraph & parse) const {
                     indexed_head.insert(make_pair(heads, head_node));
                 } else {
                     // this rule can't be applied, delete the component immediately
+                    // (the head may already be used by other rules)
                     delete next_edge;
-                    delete head_node;
+                    if (indexed_head.find(heads) == indexed_head.end())
+                        delete head_node;
                 }
             } // for rule
         } // for state
-- 
2.43.0


From b63fa78eadf66976bdf1d4e22cda47e25a7c7b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:10 +0000
Subject: [PATCH 51/52] fix: apply unary rules to every node of a span when
 parsing with an integrated LM

CubePrune applied a unary rule only to the first node of a label, and looked
for further ones once, when that hypothesis was popped. Nodes of the same
label with another language model state that were created later never got
the rule, so that derivations were lost even without limits.
---
 src/lib/lookup-table-cfglm.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/lib/lookup-table-cfglm.cc b/src/lib/lookup-table-cfglm.cc
index ac9cedb..5924006 100644
--- a/src/lib/lookup-table-cfglm.cc
+++ b/src/lib/lookup-table-cfglm.cc
@@ -257,8 +257,9 @@ void LookupTableCFGLM::CubePrune(int N, int i, int j, vector<CFGCollection> & co
         // Add the hypothesis to the hypergraph
         RecombIndex ridx = make_pair(rule->GetHeadLabels(), my_state);
         RecombMap::iterator rit = recomb_map.find(ridx);
+        bool is_new = (rit == recomb_map.end());
         ret.AddEdge(next_edge);
-        if(rit != recomb_map.end()) {
+        if(!is_new) {
             rit->second->AddEdge(next_edge);
             next_edge->SetHead(rit->second);
         } else {
@@ -271,8 +272,8 @@ void LookupTableCFGLM::CubePrune(int N, int i, int j, vector<CFGCollection> & co
             node->AddEdge(next_edge);
             recomb_map.insert(make_pair(ridx, node));
         }
-        // Advance the hypothesis
-        for(size_t j = 0; j < path->size(); j++) {
+        // Advance the hypothesis (unary rules are queued separately for each node)
+        for(size_t j = 0; id_str[0] >= 0 && j < path->size(); j++) {
             const pair<int,int> & my_span = (*path)[j];
             Real my_score = top_score + chart[my_span.first*N + my_span.second].GetHypScoreDiff(rule->GetChildHeadLabels(j), id_str[j+1]+1);
             if(my_score > -REAL_MAX/2) {
@@ -280,11 +281,12 @@ void LookupTableCFGLM::CubePrune(int N, int i, int j, vector<CFGCollection> & co
                 hypo_queue.push(make_pair(my_score, pos));
             }
         }
-        // If unary rules exist
+        // If unary rules exist, apply them to every newly created node
         UnaryIds::const_iterator uit = unary_ids_.find(rule->GetHeadLabels());
-        if(uit != unary_ids_.end()) {
+        if(is_new && uit != unary_ids_.end()) {
+            int rank = chart[id].GetNodes()[rule->GetHeadLabels()].size()-1;
             BOOST_FOREACH(int urid, uit->second) {
-                vector<int> pos(2); pos[0] = -1-urid; pos[1] = 0;
+                vector<int> pos(2); pos[0] = -1-urid; pos[1] = rank;
                 // TODO: Recalculating the features for unary rules every time is extremely wasteful. Do something.
                 Real my_score = top_score + weights_->GetCurrent() * unary_rules_[urid]->GetFeatures();
                 hypo_queue.push(make_pair(my_score, pos));
-- 
2.43.0


From 3ef102e60cb30b88ac72dd10d9ac7517b655131e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:01 +0000
Subject: [PATCH 52/52] fix: never evaluate an empty bootstrap sample in
 mt-evaluator

---
 src/lib/mt-evaluator-runner.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/mt-evaluator-runner.cc b/src/lib/mt-evaluator-runner.cc
index 6658087..9ef0d96 100644
--- a/src/lib/mt-evaluator-runner.cc
+++ b/src/lib/mt-evaluator-runner.cc
@@ -53,7 +53,8 @@ void MTEvaluatorRunner::Run(const ConfigMTEvaluatorRunner & config) {
         for(int i = 0; i < bootstrap; i++) {
             random_shuffle(ids.begin(), ids.end());
             PRINT_DEBUG("Set " << i << ":", 2);
-            for(int j = 0; j < ref_len/2; j++) {
+            // Use half of the sentences, but never an empty set
+            for(int j = 0; j < max(ref_len/2,1); j++) {
                 bootstrap_sets[ids[j]].push_back(i);
                 PRINT_DEBUG(" " << ids[j], 2);
             }
-- 
2.43.0

