From 8e1ace0d992221c0130f710f9255a3eeec1b3910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:56 +0000
Subject: [PATCH 01/34] fix: drop all-false nodes in serial binary QDD
 reduction

The serial Algorithm-R kept nodes whose branches are all 0-terminals, so
qddReduce() left unreachable nodes (or a node instead of the 0-terminal as
root) while the n-ary and the parallel reducers delete them.
---
 include/tdzdd/dd/DdReducer.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tdzdd/dd/DdReducer.hpp b/include/tdzdd/dd/DdReducer.hpp
index 108d694..fd35494 100644
--- a/include/tdzdd/dd/DdReducer.hpp
+++ b/include/tdzdd/dd/DdReducer.hpp
@@ -239,7 +239,8 @@ private:
             if (f0.row() != 0) f0 = newIdTable[f0.row()][f0.col()];
             if (f1.row() != 0) f1 = newIdTable[f1.row()][f1.col()];
 
-            if ((BDD && f1 == f0) || (ZDD && f1 == 0)) {
+            if ((BDD && f1 == f0) || (ZDD && f1 == 0)
+                    || (f0 == 0 && f1 == 0)) {
                 newId[j] = f0;
             }
             else {
@@ -315,7 +316,8 @@ private:
                 assert(newId[j] == 0);
                 newId[j] = newId[f0.col()];
             }
-            else if ((BDD && f1 == f0) || (ZDD && f1 == 0)) { // forwarded
+            else if ((BDD && f1 == f0) || (ZDD && f1 == 0)
+                    || (f0 == 0 && f1 == 0)) { // forwarded
                 assert(newId[j].row() < i);
             }
             else {
-- 
2.43.0


From c979a3b5e187d35513a0a1ccdd21b18c98496418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:11 +0000
Subject: [PATCH 02/34] fix: make parallel builders honour mergeStates()
 results

DdBuilderMP left the nodes of discarded states uninitialized although earlier
merged edges could still point to them, and ZddSubsetterMP dropped the new
state together with the stored one when mergeStates() returned 1.
---
 include/tdzdd/dd/DdBuilder.hpp | 48 +++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/include/tdzdd/dd/DdBuilder.hpp b/include/tdzdd/dd/DdBuilder.hpp
index a8b8c07..68fc7c8 100644
--- a/include/tdzdd/dd/DdBuilder.hpp
+++ b/include/tdzdd/dd/DdBuilder.hpp
@@ -108,6 +108,7 @@ protected:
 class DdBuilderMPBase {
 protected:
     static int const headerSize = 2;
+    static int64_t const PRUNED = int64_t(1) << 62; ///< code() flag of a discarded node.
 
     /* SpecNode
      * ┌────────┬────────┬────────┬────────┬─────
@@ -549,7 +550,7 @@ public:
                         else {
                             switch (spec.merge_states(state(p0), state(p))) {
                             case 1:
-                                code(p0) = 0;
+                                code(p0) |= PRUNED; // forward to 0-terminal
                                 code(p) = ++j; // code(p) >= 1
                                 p0 = p;
                                 break;
@@ -615,10 +616,20 @@ public:
                             continue;
                         }
 
-                        size_t j = j0 + code(p);
+                        size_t j = j0 + (code(p) & ~PRUNED);
                         *srcPtr(p) = NodeId(i, j);
 
                         Node<AR> &q = output[i][j];
+
+                        if (code(p) & PRUNED) {
+                            for (int b = 0; b < AR; ++b) {
+                                q.branch[b] = 0;
+                            }
+                            spec.destruct(state(p));
+                            ++deadCount;
+                            continue;
+                        }
+
                         bool allZero = true;
                         void* s = tmpState;
 
@@ -1090,17 +1101,24 @@ public:
                     for (MyListOnPool<SpecNode>::iterator t = snodes.begin();
                             t != snodes.end(); ++t) {
                         SpecNode* p = *t;
-                        SpecNode* pp = uniq.add(p);
+                        SpecNode*& p0 = uniq.add(p);
 
-                        if (pp == p) {
+                        if (p0 == p) {
                             code(p) = ++jj; // code(p) >= 1
                         }
                         else {
-                            code(p) = -code(pp);
-                            if (int prune = spec.merge_states(state(pp),
-                                    state(p))) {
-                                if (prune & 1) code(pp) = 0;
-                                if (prune & 2) code(p) = 0;
+                            switch (spec.merge_states(state(p0), state(p))) {
+                            case 1:
+                                code(p0) |= PRUNED; // forward to 0-terminal
+                                code(p) = ++jj; // code(p) >= 1
+                                p0 = p;
+                                break;
+                            case 2:
+                                code(p) = 0;
+                                break;
+                            default:
+                                code(p) = -code(p0);
+                                break;
                             }
                         }
                     }
@@ -1144,9 +1162,19 @@ public:
                             continue;
                         }
 
-                        size_t const jj = jj0 + code(p);
+                        size_t const jj = jj0 + (code(p) & ~PRUNED);
                         *srcPtr(p) = NodeId(i, jj);
                         Node<AR> &q = output[i][jj];
+
+                        if (code(p) & PRUNED) {
+                            for (int b = 0; b < AR; ++b) {
+                                q.branch[b] = 0;
+                            }
+                            spec.destruct(state(p));
+                            ++deadCount;
+                            continue;
+                        }
+
                         bool allZero = true;
                         void* s = tmpState;
 
-- 
2.43.0


From f984b2db68dfc58da0583943c28bbda846b6a314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:44 +0000
Subject: [PATCH 03/34] fix: compare diagrams up to node sharing on both sides
 in operator==

---
 include/tdzdd/DdStructure.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/tdzdd/DdStructure.hpp b/include/tdzdd/DdStructure.hpp
index 950aef8..3362e58 100644
--- a/include/tdzdd/DdStructure.hpp
+++ b/include/tdzdd/DdStructure.hpp
@@ -313,8 +313,15 @@ public:
         if (size() > o.size()) return o.operator==(*this);
 
         MyHashMap<InitializedNode<ARITY>,size_t> uniq;
+        DataTable<NodeId> repr(n + 1);
         DataTable<NodeId> equiv(n + 1);
         {
+            size_t m = (*diagram)[0].size();
+            repr[0].resize(m);
+            for (size_t j = 0; j < m; ++j) {
+                repr[0][j] = j;
+            }
+
             size_t om = (*o.diagram)[0].size();
             equiv[0].resize(om);
             for (size_t j = 0; j < om; ++j) {
@@ -325,9 +332,19 @@ public:
         for (int i = 1; i <= n; ++i) {
             size_t m = (*diagram)[i].size();
             uniq.initialize(m * 2);
+            repr[i].resize(m);
 
             for (size_t j = 0; j < m; ++j) {
-                uniq[(*diagram)[i][j]] = j;
+                InitializedNode<ARITY> node;
+
+                for (int b = 0; b < ARITY; ++b) {
+                    NodeId f = (*diagram)[i][j].branch[b];
+                    node.branch[b] = repr[f.row()][f.col()];
+                }
+
+                size_t* p = uniq.getValue(node);
+                if (p == 0) uniq[node] = j;
+                repr[i][j] = NodeId(i, (p != 0) ? *p : j);
             }
 
             size_t om = (*o.diagram)[i].size();
@@ -346,7 +363,8 @@ public:
             }
         }
 
-        return root_ == equiv[o.root_.row()][o.root_.col()];
+        return repr[root_.row()][root_.col()]
+                == equiv[o.root_.row()][o.root_.col()];
     }
 
     /**
-- 
2.43.0


From d86a597f4cd6c7f5757263fb30727a60d39d054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:17 +0000
Subject: [PATCH 04/34] fix: construct both operand states in
 and/or/intersection roots

---
 include/tdzdd/op/BinaryOperation.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/tdzdd/op/BinaryOperation.hpp b/include/tdzdd/op/BinaryOperation.hpp
index 9650a41..ba61859 100644
--- a/include/tdzdd/op/BinaryOperation.hpp
+++ b/include/tdzdd/op/BinaryOperation.hpp
@@ -171,9 +171,8 @@ struct BddAnd_
 
     int getRoot(Word* p) {
         int i1 = base::spec1.get_root(base::state1(p));
-        if (i1 == 0) return 0;
         int i2 = base::spec2.get_root(base::state2(p));
-        if (i2 == 0) return 0;
+        if (i1 == 0 || i2 == 0) return 0;
         base::setLevel1(p, i1);
         base::setLevel2(p, i2);
         return std::max(base::level1(p), base::level2(p));
@@ -241,9 +240,8 @@ struct BddOr_
 
     int getRoot(Word* p) {
         int i1 = base::spec1.get_root(base::state1(p));
-        if (i1 < 0) return -1;
         int i2 = base::spec2.get_root(base::state2(p));
-        if (i2 < 0) return -1;
+        if (i1 < 0 || i2 < 0) return -1;
         base::setLevel1(p, i1);
         base::setLevel2(p, i2);
         return std::max(base::level1(p), base::level2(p));
@@ -345,9 +343,8 @@ public:
 
     int getRoot(Word* p) {
         int i1 = spec1.get_root(state1(p));
-        if (i1 == 0) return 0;
         int i2 = spec2.get_root(state2(p));
-        if (i2 == 0) return 0;
+        if (i1 == 0 || i2 == 0) return 0;
 
         while (i1 != i2) {
             if (i1 > i2) {
-- 
2.43.0


From 661f541c673fd30a5f511042b092f6469d1be9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:32 +0000
Subject: [PATCH 05/34] fix: size cardinality work area by the number of
 variables

---
 include/tdzdd/eval/Cardinality.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/tdzdd/eval/Cardinality.hpp b/include/tdzdd/eval/Cardinality.hpp
index a44e675..6fc424f 100644
--- a/include/tdzdd/eval/Cardinality.hpp
+++ b/include/tdzdd/eval/Cardinality.hpp
@@ -24,6 +24,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cmath>
 #include <string>
 
@@ -107,7 +108,8 @@ public:
         topLevel = level;
         pools.resize(topLevel + 1);
 
-        int max = ceil(double(topLevel) * log2(double(ARITY)) / 63.0) + 1;
+        int n = std::max(topLevel, numVars);
+        int max = ceil(double(n) * log2(double(ARITY)) / 63.0) + 1;
         tmp1.setArray(pools[topLevel].template allocate<uint64_t>(max));
         tmp2.setArray(pools[topLevel].template allocate<uint64_t>(max));
         tmp3.setArray(pools[topLevel].template allocate<uint64_t>(max));
-- 
2.43.0


From c16df6ba7c8b1b9d1c33ffaa5658ad0b313fe4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:25 +0000
Subject: [PATCH 06/34] fix: make diagram self-assignment safe

---
 include/tdzdd/dd/NodeTable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tdzdd/dd/NodeTable.hpp b/include/tdzdd/dd/NodeTable.hpp
index 0cf4536..7f5e9ea 100644
--- a/include/tdzdd/dd/NodeTable.hpp
+++ b/include/tdzdd/dd/NodeTable.hpp
@@ -436,9 +436,9 @@ public:
     }
 
     NodeTableHandler& operator=(NodeTableHandler const& o) {
+        o.pointer->ref();
         pointer->deref();
         pointer = o.pointer;
-        pointer->ref();
         return *this;
     }
 
-- 
2.43.0


From e3c443d055cdc20e1e8a0d9ed98a6a8ec1176a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:06 +0000
Subject: [PATCH 07/34] fix: destroy the root state when counting paths of a
 terminal-root spec

---
 include/tdzdd/dd/PathCounter.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tdzdd/dd/PathCounter.hpp b/include/tdzdd/dd/PathCounter.hpp
index 2962336..c2f09bd 100644
--- a/include/tdzdd/dd/PathCounter.hpp
+++ b/include/tdzdd/dd/PathCounter.hpp
@@ -107,6 +107,7 @@ public:
         Word* ptmp = tmp.data();
         int const n = spec.get_root(state(ptmp));
         if (n <= 0) {
+            spec.destruct(state(ptmp));
             mh << " ...";
             mh.end(0);
             return (n == 0) ? "0" : "1";
@@ -226,6 +227,7 @@ public:
         Word* ptmp = tmp.data();
         int const n = spec.get_root(state(ptmp));
         if (n <= 0) {
+            spec.destruct(state(ptmp));
             mh << " ...";
             mh.end(0);
             return (n == 0) ? "0" : "1";
@@ -331,6 +333,7 @@ public:
         Word* ptmp = tmp.data();
         int const n = spec.get_root(state(ptmp));
         if (n <= 0) {
+            spec.destruct(state(ptmp));
             mh << " ...";
             mh.end(0);
             return (n == 0) ? 0 : 1;
-- 
2.43.0


From 8cd0303d1e2a6187c7e57704245a3298060016ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:06 +0000
Subject: [PATCH 08/34] fix: destroy the scalar part of hybrid states

---
 include/tdzdd/DdSpec.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tdzdd/DdSpec.hpp b/include/tdzdd/DdSpec.hpp
index bd21a21..216df11 100644
--- a/include/tdzdd/DdSpec.hpp
+++ b/include/tdzdd/DdSpec.hpp
@@ -614,6 +614,7 @@ public:
     }
 
     void destruct(void* p) {
+        s_state(p).~S_State();
     }
 
     void destructLevel(int level) {
-- 
2.43.0


From 2ae3b927f50d61a1acf77f089389e8ca44e10966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:06 +0000
Subject: [PATCH 09/34] fix: size path counters by the arity and by skipped
 levels

---
 include/tdzdd/dd/PathCounter.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/tdzdd/dd/PathCounter.hpp b/include/tdzdd/dd/PathCounter.hpp
index c2f09bd..9888a43 100644
--- a/include/tdzdd/dd/PathCounter.hpp
+++ b/include/tdzdd/dd/PathCounter.hpp
@@ -76,6 +76,16 @@ class PathCounter {
         return (n + sizeof(Word) - 1) / sizeof(Word);
     }
 
+    /*
+     * Number of BigNumber words by which the number of paths may grow
+     * in passing the given number of levels.
+     */
+    static int extraWords(int levels) {
+        int bits = 0;
+        while ((Spec::ARITY - 1) >> bits) ++bits;
+        return int(uint64_t(levels) * bits / 63) + 1;
+    }
+
     static void* state(Word* p) {
         return p;
     }
@@ -113,7 +123,7 @@ public:
             return (n == 0) ? "0" : "1";
         }
 
-        std::vector<uint64_t> totalStorage(n / 63 + 1);
+        std::vector<uint64_t> totalStorage(extraWords(n));
         BigNumber total(totalStorage.data());
         total.store(0);
         size_t maxWidth = 0;
@@ -169,7 +179,7 @@ public:
                     }
                     else if (ii < i - 1) {
                         Word* qq = vnodeTable[ii].alloc_front(
-                                nextWords + (i - ii) / 63);
+                                nextWords + extraWords(i - ii));
                         spec.get_copy(state(qq), state(pp));
                         spec.destruct(state(pp));
 
@@ -233,7 +243,7 @@ public:
             return (n == 0) ? "0" : "1";
         }
 
-        std::vector<uint64_t> totalStorage(n / 63 + 1);
+        std::vector<uint64_t> totalStorage(extraWords(n));
         BigNumber total(totalStorage.data());
         total.store(0);
         size_t maxWidth = 0;
@@ -300,7 +310,7 @@ public:
                     }
                     else if (ii < i - 1) {
                         Word* ppp = vnodeTable[ii].alloc_front(
-                                nextWords + (i - ii) / 63);
+                                nextWords + extraWords(i - ii));
                         spec.get_copy(state(ppp), state(pp));
                         spec.destruct(state(pp));
                         number(ppp).store(number(p));
-- 
2.43.0


From 9cb0a012889c7a8abe68a24a97ceb187cbc73c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:00 +0000
Subject: [PATCH 10/34] fix: dump terminal roots in SAPPORO format

---
 include/tdzdd/DdStructure.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/tdzdd/DdStructure.hpp b/include/tdzdd/DdStructure.hpp
index 3362e58..2a6c541 100644
--- a/include/tdzdd/DdStructure.hpp
+++ b/include/tdzdd/DdStructure.hpp
@@ -762,7 +762,15 @@ public:
             }
         }
 
-        os << nodeId[root_.row()][root_.col()] << "\n";
+        if (root_ == 0) {
+            os << "F\n";
+        }
+        else if (root_ == 1) {
+            os << "T\n";
+        }
+        else {
+            os << nodeId[root_.row()][root_.col()] << "\n";
+        }
         assert(k == l * 2);
     }
 };
-- 
2.43.0


From c41cdc8451be9682ffa3a3e13324db5e0ce053c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:01 +0000
Subject: [PATCH 11/34] fix: accept an edge list without a final newline

---
 include/tdzdd/util/Graph.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tdzdd/util/Graph.hpp b/include/tdzdd/util/Graph.hpp
index ce77e6c..ba0d76a 100644
--- a/include/tdzdd/util/Graph.hpp
+++ b/include/tdzdd/util/Graph.hpp
@@ -172,7 +172,8 @@ private:
         std::string v, v1, v2;
 
         while (is) {
-            char c = is.get();
+            int c = is.get();
+            if (!is) c = '\n'; // the last line may not be terminated
 
             if (isspace(c)) {
                 if (!v.empty()) {
-- 
2.43.0


From 8e0e10167617266e3c9df0ea78b4d2ba49581e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:25 +0000
Subject: [PATCH 12/34] fix: clear the pair flag together with the vertex
 groups

---
 include/tdzdd/util/Graph.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tdzdd/util/Graph.hpp b/include/tdzdd/util/Graph.hpp
index ba0d76a..8bce8ff 100644
--- a/include/tdzdd/util/Graph.hpp
+++ b/include/tdzdd/util/Graph.hpp
@@ -588,6 +588,7 @@ public:
         colorNumber_.clear();
         colorNumber_.resize(vMax + 1);
         numColor_ = 0;
+        hasColorPairs_ = false;
     }
 
     void setDefaultPathColor() {
-- 
2.43.0


From 39478ebe6e75619ab8a3bac1aa1537092e83f8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:08 +0000
Subject: [PATCH 13/34] fix: reject non-numeric tokens in adjacency lists and
 vertex groups

---
 include/tdzdd/util/Graph.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tdzdd/util/Graph.hpp b/include/tdzdd/util/Graph.hpp
index 8bce8ff..543e466 100644
--- a/include/tdzdd/util/Graph.hpp
+++ b/include/tdzdd/util/Graph.hpp
@@ -231,7 +231,8 @@ private:
             }
             if (!is) break;
             is.unget();
-            is >> v2;
+            if (!(is >> v2)) throw std::runtime_error(
+                    "ERROR: Not a vertex number in the adjacency list");
 
             edgeNames.push_back(std::make_pair(to_string(v1), to_string(v2)));
         }
@@ -254,7 +255,8 @@ private:
             is.unget();
 
             VertexNumber v;
-            is >> v;
+            if (!(is >> v)) throw std::runtime_error(
+                    "ERROR: Not a vertex number in the vertex groups");
 
             name2color[to_string(v)] = color;
         }
-- 
2.43.0


From 97f475816c0be5a43a904994a2db58f638c3c8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:30 +0000
Subject: [PATCH 14/34] fix: divide fixed-size big numbers by divisors above
 2^31 exactly

---
 include/tdzdd/util/BigNumber.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/tdzdd/util/BigNumber.hpp b/include/tdzdd/util/BigNumber.hpp
index 4e4eba6..1f91093 100644
--- a/include/tdzdd/util/BigNumber.hpp
+++ b/include/tdzdd/util/BigNumber.hpp
@@ -332,9 +332,8 @@ public:
         uint64_t r = 0;
         for (int i = size - 1; i >= 0; --i) {
             r = (r << 32) + val[i];
-            lldiv_t d = lldiv(r, n);
-            val[i] = d.quot;
-            r = d.rem;
+            val[i] = r / n;
+            r %= n;
         }
         return r;
     }
-- 
2.43.0


From 4705d02cbecd10755ca262a8544947fe89cee810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:30 +0000
Subject: [PATCH 15/34] fix: divide big numbers by the given divisor

---
 include/tdzdd/util/BigNumber.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/tdzdd/util/BigNumber.hpp b/include/tdzdd/util/BigNumber.hpp
index 1f91093..b412952 100644
--- a/include/tdzdd/util/BigNumber.hpp
+++ b/include/tdzdd/util/BigNumber.hpp
@@ -177,12 +177,10 @@ public:
             --p;
             uint64_t q = cont ? MSB : 0;
             r = (r << 31) | ((*p & ~MSB) >> 32);
-            lldiv_t d = lldiv(r, 10LL);
-            q += d.quot << 32;
-            r = (d.rem << 32) | (*p & ((uint64_t(1) << 32) - 1));
-            d = lldiv(r, 10LL);
-            q += d.quot;
-            r = d.rem;
+            q += (r / n) << 32;
+            r = ((r % n) << 32) | (*p & ((uint64_t(1) << 32) - 1));
+            q += r / n;
+            r %= n;
             *p = q;
             if (q != 0) cont = true;
         } while (p != array);
-- 
2.43.0


From 93ff056ed7be4de4e3eaa8172bb8a069d744c163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:54 +0000
Subject: [PATCH 16/34] fix: keep zero in one word when it is shifted by a word
 or more

---
 include/tdzdd/util/BigNumber.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tdzdd/util/BigNumber.hpp b/include/tdzdd/util/BigNumber.hpp
index b412952..30baf80 100644
--- a/include/tdzdd/util/BigNumber.hpp
+++ b/include/tdzdd/util/BigNumber.hpp
@@ -190,6 +190,7 @@ public:
 
     size_t shiftLeft(int k) {
         assert(k >= 0);
+        if (operator==(uint64_t(0))) return 1;
         if (k >= 63) {
             int w = k / 63;
             for (uint64_t* q = array + size() - 1; q >= array; --q) {
-- 
2.43.0


From 5bce890b827fde61683049a1d3e7f7ca4757e9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:56 +0000
Subject: [PATCH 17/34] fix: make constant iteration over MyList usable

---
 include/tdzdd/util/MyList.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/tdzdd/util/MyList.hpp b/include/tdzdd/util/MyList.hpp
index 1723816..68d3978 100644
--- a/include/tdzdd/util/MyList.hpp
+++ b/include/tdzdd/util/MyList.hpp
@@ -66,6 +66,10 @@ class MyList {
         return reinterpret_cast<T*>(p + 1);
     }
 
+    static T const* dataStart(Cell const* p) {
+        return reinterpret_cast<T const*>(p + 1);
+    }
+
 public:
     MyList()
             : front_(0), size_(0) {
@@ -235,7 +239,7 @@ public:
         }
 
         T const* operator*() const {
-            return *dataStart(front);
+            return dataStart(front);
         }
 
         T const* operator->() const {
@@ -247,11 +251,11 @@ public:
             return *this;
         }
 
-        bool operator==(iterator const& o) const {
+        bool operator==(const_iterator const& o) const {
             return front == o.front;
         }
 
-        bool operator!=(iterator const& o) const {
+        bool operator!=(const_iterator const& o) const {
             return front != o.front;
         }
     };
-- 
2.43.0


From ba37640a62e454d12aa3842ade47376db695c5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:36 +0000
Subject: [PATCH 18/34] fix: shift the entries behind the removed one in
 MyBitSet::pullout

---
 include/tdzdd/util/MySet.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/tdzdd/util/MySet.hpp b/include/tdzdd/util/MySet.hpp
index 59a9800..643c8fe 100644
--- a/include/tdzdd/util/MySet.hpp
+++ b/include/tdzdd/util/MySet.hpp
@@ -118,13 +118,11 @@ public:
      */
     void pullout(size_t i) {
         size_t k = i / 64;
-        uint64_t* p = &word(k);
-        uint64_t* q = p + numWords();
-        uint64_t m = mask(i % 64 + 1) - 1;
-        *p = (*p & ~m) | ((*p << 1) & m);
-        while (++p < q) {
-            *(p - 1) |= *p >> 63;
-            *p <<= 1;
+        uint64_t m = mask(i % 64) - 1;
+        word(k) = (word(k) & m) | ((word(k) >> 1) & ~m);
+        while (++k < numWords()) {
+            word(k - 1) |= word(k) << 63;
+            word(k) >>= 1;
         }
     }
 
-- 
2.43.0


From 1f34fcfcf833b29835503ece4fc6ab756b88f496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:56 +0000
Subject: [PATCH 19/34] fix: keep the contents of arrays and hash tables
 assigned to themselves

---
 include/tdzdd/util/MyHashTable.hpp | 1 +
 include/tdzdd/util/MyVector.hpp    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/tdzdd/util/MyHashTable.hpp b/include/tdzdd/util/MyHashTable.hpp
index 1a1e8e9..84a54a0 100644
--- a/include/tdzdd/util/MyHashTable.hpp
+++ b/include/tdzdd/util/MyHashTable.hpp
@@ -195,6 +195,7 @@ public:
     }
 
     MyHashTable& operator=(MyHashTable const& o) {
+        if (this == &o) return *this;
         initialize(o.tableSize_);
         for (const_iterator t = o.begin(); t != o.end(); ++t) {
             add(*t);
diff --git a/include/tdzdd/util/MyVector.hpp b/include/tdzdd/util/MyVector.hpp
index d62d228..7377c10 100644
--- a/include/tdzdd/util/MyVector.hpp
+++ b/include/tdzdd/util/MyVector.hpp
@@ -97,6 +97,7 @@ public:
     }
 
     MyVector& operator=(MyVector const& o) {
+        if (this == &o) return *this;
         resize(0);
         reserve(o.size_);
         size_ = o.size_;
-- 
2.43.0


From 63d0e9f09531c883d3878e8d39c84ef5f698afb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:16 +0000
Subject: [PATCH 20/34] fix: erase exactly the given elements of MyVector

---
 include/tdzdd/util/MyVector.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tdzdd/util/MyVector.hpp b/include/tdzdd/util/MyVector.hpp
index 7377c10..258d578 100644
--- a/include/tdzdd/util/MyVector.hpp
+++ b/include/tdzdd/util/MyVector.hpp
@@ -273,10 +273,11 @@ public:
      */
     T* erase(T* first, T* last) {
         assert(array_ <= first && first <= last && last <= array_ + size_);
-        Size newSize = size_ - (last - first);
+        Size n = last - first;
+        Size newSize = size_ - n;
 
         for (Size i = first - array_; i < newSize; ++i) {
-            array_[i] = last[i];
+            array_[i] = array_[i + n];
         }
 
         while (newSize < size_) {
@@ -487,8 +488,7 @@ public:
      */
     iterator erase(iterator pos) {
         assert(begin() <= pos && pos < end());
-        std::memmove(pos, pos + 1, end() - pos - 1);
-        return pos;
+        return erase(pos, pos + 1);
     }
 
     /**
-- 
2.43.0


From c734d740079ecd1f007d090dd9f9f3c816da4c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:36 +0000
Subject: [PATCH 21/34] fix: let MyVector::push_back take an element of the
 same array

---
 include/tdzdd/util/MyVector.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/tdzdd/util/MyVector.hpp b/include/tdzdd/util/MyVector.hpp
index 258d578..d4a4e2c 100644
--- a/include/tdzdd/util/MyVector.hpp
+++ b/include/tdzdd/util/MyVector.hpp
@@ -310,8 +310,14 @@ public:
      * @param val value of the new element.
      */
     void push_back(T const& val) {
-        ensureCapacity(size_ + 1);
-        new (array_ + size_) T(val);
+        if (size_ < capacity_) {
+            new (array_ + size_) T(val);
+        }
+        else {
+            T tmp(val); // val may be an element of this array
+            ensureCapacity(size_ + 1);
+            new (array_ + size_) T(tmp);
+        }
         ++size_;
     }
 
-- 
2.43.0


From edf76301416fc7f06ecf23fdefdc13380a3c7c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:57 +0000
Subject: [PATCH 22/34] fix: construct the memory pools of a collection that
 grows

---
 include/tdzdd/util/MemoryPool.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/tdzdd/util/MemoryPool.hpp b/include/tdzdd/util/MemoryPool.hpp
index ccc4947..c25646e 100644
--- a/include/tdzdd/util/MemoryPool.hpp
+++ b/include/tdzdd/util/MemoryPool.hpp
@@ -232,7 +232,11 @@ typedef MyVector<MemoryPool> MemoryPools;
 template<>
 inline void MyVector<MemoryPool>::moveElement(MemoryPool& from,
         MemoryPool& to) {
-    to.moveFrom(from);
+    if (&from != &to) {
+        new (&to) MemoryPool();
+        to.moveFrom(from);
+        from.~MemoryPool();
+    }
 }
 
 } // namespace tdzdd
-- 
2.43.0


From 6fd321b3223ab8f5883ca58b420cf4803efbba85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:39 +0000
Subject: [PATCH 23/34] fix: leave a full small set alone when an element it
 has is added again

---
 include/tdzdd/util/MySet.hpp | 27 +++++----------------------
 1 file changed, 5 insertions(+), 22 deletions(-)

diff --git a/include/tdzdd/util/MySet.hpp b/include/tdzdd/util/MySet.hpp
index 643c8fe..2725f70 100644
--- a/include/tdzdd/util/MySet.hpp
+++ b/include/tdzdd/util/MySet.hpp
@@ -323,31 +323,14 @@ public:
      * Adds an element.
      * @param e element.
      */
-//    void add(T const& e) {
-//        T* p = std::lower_bound(array_, array_ + size_, e);
-//        if (p != array_ + size_ && *p == e) return;
-//        if (N > 0 && size_ >= N - 1) throw std::out_of_range("MySmallSet::add");
-//        for (T* q = array_ + size_; q != p; --q) {
-//            *q = *(q - 1);
-//        }
-//        *p = e;
-//        ++size_;
-//    }
     void add(T const& e) {
+        T* p = std::lower_bound(array_, array_ + size_, e);
+        if (p != array_ + size_ && *p == e) return;
         if (N > 0 && size_ >= N - 1) throw std::out_of_range("MySmallSet::add");
-        T* pz = array_ + size_;
-        T* p = pz - 1;
-        while (array_ <= p && e <= *p) {
-            if (e == *p) {
-                while (++p < pz) {
-                    *p = *(p + 1);
-                }
-                return;
-            }
-            *(p + 1) = *p;
-            --p;
+        for (T* q = array_ + size_; q != p; --q) {
+            *q = *(q - 1);
         }
-        *(p + 1) = e;
+        *p = e;
         ++size_;
     }
 
-- 
2.43.0


From f43c2ce839e3c3f3e201fe29f2f5032538d85936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:59 +0000
Subject: [PATCH 24/34] fix: keep an ordinary block when a memory pool is
 reused

---
 include/tdzdd/util/MemoryPool.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/tdzdd/util/MemoryPool.hpp b/include/tdzdd/util/MemoryPool.hpp
index c25646e..fdb1bb3 100644
--- a/include/tdzdd/util/MemoryPool.hpp
+++ b/include/tdzdd/util/MemoryPool.hpp
@@ -101,10 +101,13 @@ public:
     }
 
     void reuse() {
-        if (blockList == 0) return;
+        if (nextUnit >= BLOCK_UNITS) { // the first block may be a special one
+            clear();
+            return;
+        }
         while (blockList->next != 0) {
-            Unit* block = blockList;
-            blockList = blockList->next;
+            Unit* block = blockList->next;
+            blockList->next = block->next;
             delete[] block;
         }
         nextUnit = 1;
-- 
2.43.0


From 50fa6d69017dab58974c8cfb08675dd53445faa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:17 +0000
Subject: [PATCH 25/34] fix: leave a memory pool usable after its blocks are
 moved away

---
 include/tdzdd/util/MemoryPool.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tdzdd/util/MemoryPool.hpp b/include/tdzdd/util/MemoryPool.hpp
index fdb1bb3..a2c22aa 100644
--- a/include/tdzdd/util/MemoryPool.hpp
+++ b/include/tdzdd/util/MemoryPool.hpp
@@ -81,6 +81,7 @@ public:
         blockList = o.blockList;
         nextUnit = o.nextUnit;
         o.blockList = 0;
+        o.nextUnit = BLOCK_UNITS;
     }
 
     virtual ~MemoryPool() {
-- 
2.43.0


From 7339ce350976e4aee2430ffcc4d9efd409ad6bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:48 +0000
Subject: [PATCH 26/34] fix: convert an empty std::vector to an empty MyVector

---
 include/tdzdd/util/MyVector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tdzdd/util/MyVector.hpp b/include/tdzdd/util/MyVector.hpp
index d4a4e2c..bde22ab 100644
--- a/include/tdzdd/util/MyVector.hpp
+++ b/include/tdzdd/util/MyVector.hpp
@@ -109,7 +109,8 @@ public:
 
     template<typename U>
     MyVector(std::vector<U> const& o)
-            : capacity_(o.size()), size_(o.size()), array_(allocate(capacity_)) {
+            : capacity_(o.size()), size_(o.size()),
+              array_(capacity_ ? allocate(capacity_) : 0) {
         for (Size i = 0; i < size_; ++i) {
             new (array_ + i) T(o[i]);
         }
-- 
2.43.0


From b33f67ad96387869f13d2ae686cdd4391ee65500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:15 +0000
Subject: [PATCH 27/34] fix: let the last digit of NAryZdd be zero

---
 apps/ddqueens/NAryZdd.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/apps/ddqueens/NAryZdd.hpp b/apps/ddqueens/NAryZdd.hpp
index 48eeb36..2f86e07 100644
--- a/apps/ddqueens/NAryZdd.hpp
+++ b/apps/ddqueens/NAryZdd.hpp
@@ -48,13 +48,12 @@ public:
     int getChild(int level, int take) const {
         if (take) {
             level = ((level - 1) / m) * m;
-            if (level == 0) return -1;
         }
         else {
             --level;
             if (oneHot && level % m == 0) return 0;
         }
-        return level;
+        return (level == 0) ? -1 : level;
     }
 };
 
-- 
2.43.0


From 24f7f0d73fd38cf3497cc85587a83977b1f22ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:37 +0000
Subject: [PATCH 28/34] fix: solve number-link boards that have a single row or
 column

---
 apps/numberlink/Board.cpp    | 9 ++++-----
 apps/numberlink/ddnumlin.cpp | 7 ++++++-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/apps/numberlink/Board.cpp b/apps/numberlink/Board.cpp
index 9c1ad09..cde778a 100644
--- a/apps/numberlink/Board.cpp
+++ b/apps/numberlink/Board.cpp
@@ -48,8 +48,7 @@ void Board::init() {
 namespace {
 
 template<typename M>
-M transposed_matrix(M& a) {
-    int rows = a[0].size();
+M transposed_matrix(M& a, int rows) {
     int cols = a.size();
     M b(rows);
     for (int i = 0; i < rows; ++i) {
@@ -64,9 +63,9 @@ M transposed_matrix(M& a) {
 }
 
 void Board::transpose() {
-    number = transposed_matrix(number);
-    std::vector<std::vector<bool> > tmp = transposed_matrix(hlink);
-    hlink = transposed_matrix(vlink);
+    number = transposed_matrix(number, cols);
+    std::vector<std::vector<bool> > tmp = transposed_matrix(hlink, cols - 1);
+    hlink = transposed_matrix(vlink, cols);
     vlink = tmp;
     std::swap(rows, cols);
 }
diff --git a/apps/numberlink/ddnumlin.cpp b/apps/numberlink/ddnumlin.cpp
index f653ed0..a177f0c 100644
--- a/apps/numberlink/ddnumlin.cpp
+++ b/apps/numberlink/ddnumlin.cpp
@@ -110,7 +110,12 @@ void run() {
     quiz.printNumlin(mh);
 
     bool transposed = false;
-    if (quiz.rows < quiz.cols) {
+    if (quiz.cols == 1) {
+        mh << "\nThe board is transposed because it has only one column.";
+        quiz.transpose();
+        transposed = true;
+    }
+    else if (quiz.rows > 1 && quiz.rows < quiz.cols) {
         mh << "\nThe board is transposed because it has more columns than rows.";
         quiz.transpose();
         transposed = true;
-- 
2.43.0


From 5c7d1563e23ffb7e1df8872a234401a6db3e9568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:09 +0000
Subject: [PATCH 29/34] fix: keep the root's level while dumping a diagram
 whose root was moved

---
 include/tdzdd/DdStructure.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tdzdd/DdStructure.hpp b/include/tdzdd/DdStructure.hpp
index 2a6c541..75585ce 100644
--- a/include/tdzdd/DdStructure.hpp
+++ b/include/tdzdd/DdStructure.hpp
@@ -758,7 +758,7 @@ public:
 
             MyVector<int> const& levels = diagram->lowerLevels(i);
             for (int const* t = levels.begin(); t != levels.end(); ++t) {
-                nodeId[*t].clear();
+                if (*t != int(root_.row())) nodeId[*t].clear();
             }
         }
 
-- 
2.43.0


From 08c37928774e2fdec3001480804e253a05dee8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:59 +0000
Subject: [PATCH 30/34] fix: never run the exporter to BDD in several threads

The BDD package keeps global tables without locks. ToZBDD declares that
it is not thread-safe; ToBDD did not, so evaluating it on a diagram that
uses multiple processors entered the package from several threads.
---
 include/tdzdd/eval/ToBDD.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/tdzdd/eval/ToBDD.hpp b/include/tdzdd/eval/ToBDD.hpp
index 9039688..453003e 100644
--- a/include/tdzdd/eval/ToBDD.hpp
+++ b/include/tdzdd/eval/ToBDD.hpp
@@ -51,6 +51,10 @@ public:
             : offset(offset) {
     }
 
+    bool isThreadSafe() const {
+        return false;
+    }
+
     void initialize(int topLevel) const {
         while (BDD_VarUsed() < topLevel + offset) {
             BDD_NewVar();
-- 
2.43.0


From 468d499e01548465aba86d0bbd8925141ce56174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:46 +0000
Subject: [PATCH 31/34] fix: cnfbdd crashed when every clause was a tautology

---
 apps/cnfbdd/CnfToBdd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/cnfbdd/CnfToBdd.cpp b/apps/cnfbdd/CnfToBdd.cpp
index 3109f36..ce9c827 100644
--- a/apps/cnfbdd/CnfToBdd.cpp
+++ b/apps/cnfbdd/CnfToBdd.cpp
@@ -191,7 +191,7 @@ void CnfToBdd::prepare() {
 
 void CnfToBdd::makeClauseMap(Clause const* base, Clause const* const * from,
         Clause const* const * to, int k) {
-    for (Clause const* const * p = from; p < to - 1; ++p) {
+    for (Clause const* const * p = from; to - p > 1; ++p) {
         Clause const* const * q = p + 1;
         int t1 = (**p)[k];
         if (t1 == 0) continue;
-- 
2.43.0


From 1068ad4cce0a8225df1af5ce844eac295c93c313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:46 +0000
Subject: [PATCH 32/34] fix: cnfbdd read past the clause list when a state's
 remaining clauses were don't cares

---
 apps/cnfbdd/CnfToBdd.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/cnfbdd/CnfToBdd.cpp b/apps/cnfbdd/CnfToBdd.cpp
index ce9c827..9bf9e62 100644
--- a/apps/cnfbdd/CnfToBdd.cpp
+++ b/apps/cnfbdd/CnfToBdd.cpp
@@ -484,7 +484,8 @@ bool CnfToBdd::badState(std::vector<uint16_t>& clauses, int level) const {
                 g = Cudd_NotCond(Cudd_E(g), Cudd_IsComplement(g));
                 if (Cudd_IsConstant(g)) return g == zero;
             }
-            while (int(*t) > Cudd_NodeReadIndex(g)) { // don't care
+            while (t != clauses.rend()
+                    && int(*t) > Cudd_NodeReadIndex(g)) { // don't care
                 ++t;
             }
         }
-- 
2.43.0


From 63b1824c3e723a0900a03a5f1fe339b69cd2f58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:46 +0000
Subject: [PATCH 33/34] fix: cnfbdd -p changed CUDD reference counts from
 several threads

---
 apps/cnfbdd/CnfToBdd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/cnfbdd/CnfToBdd.cpp b/apps/cnfbdd/CnfToBdd.cpp
index 9bf9e62..cb084d8 100644
--- a/apps/cnfbdd/CnfToBdd.cpp
+++ b/apps/cnfbdd/CnfToBdd.cpp
@@ -468,7 +468,7 @@ int CnfToBdd::getChild(State& s, int level, int take) {
 }
 
 bool CnfToBdd::badState(std::vector<uint16_t>& clauses, int level) const {
-    DdNode* zero = Cudd(0).ddNode();
+    DdNode* zero = Cudd_ReadLogicZero(Cudd::manager);
     DdNode* g = frontierSet[level].ddNode();
     if (Cudd_IsConstant(g)) return g == zero;
     std::reverse_iterator<std::vector<uint16_t>::iterator> t = clauses.rbegin();
-- 
2.43.0


From 073331fba865faf94251a6c487ad21aa6d61fdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:49 +0000
Subject: [PATCH 34/34] fix: assigning an empty Cudd object dereferenced a null
 pointer

---
 apps/cnfbdd/Cudd.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/cnfbdd/Cudd.hpp b/apps/cnfbdd/Cudd.hpp
index c04c56a..2084035 100644
--- a/apps/cnfbdd/Cudd.hpp
+++ b/apps/cnfbdd/Cudd.hpp
@@ -95,7 +95,7 @@ public:
     }
 
     Cudd_& operator=(Cudd_ const& o) {
-        Cudd_Ref(o.dd);
+        if (o.dd != 0) Cudd_Ref(o.dd);
         this->~Cudd_();
         dd = o.dd;
         return *this;
-- 
2.43.0

