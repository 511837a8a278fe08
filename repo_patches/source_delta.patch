From d7b98ebd37edd704f3553712379c4535342614f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:12 +0000
Subject: [PATCH 01/42] fix: min-max heap: stop sifting down after a swap with
 a child

---
 common/include/rofl/common/min_max_heap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/rofl/common/min_max_heap.h b/common/include/rofl/common/min_max_heap.h
index 3c58787..0bcfc10 100644
--- a/common/include/rofl/common/min_max_heap.h
+++ b/common/include/rofl/common/min_max_heap.h
@@ -368,7 +368,7 @@ namespace rofl {
                     icurr = igrand;
                 } else if (ichild < data_.size() && cmp_(data_[ichild], data_[icurr])) {
                     std::swap(data_[icurr], data_[ichild]);
-                    icurr = ichild;
+                    icurr = data_.size();
                 } else {
                     icurr = data_.size();
                 }
-- 
2.43.0


From bc9aaada0015090ffb1d662dfcf9e503fd0b89cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:12 +0000
Subject: [PATCH 02/42] fix: min-max heap: next minimum and next maximum
 consider all the candidates

---
 common/include/rofl/common/min_max_heap.h | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/common/include/rofl/common/min_max_heap.h b/common/include/rofl/common/min_max_heap.h
index 0bcfc10..54cf2d5 100644
--- a/common/include/rofl/common/min_max_heap.h
+++ b/common/include/rofl/common/min_max_heap.h
@@ -133,18 +133,32 @@ namespace rofl {
             } else if (data_.size() < 4) {
                 return data_[childMin(0)];
             } else {
-                return data_[grandchildMin(0)];
+                // A child of the root without children may precede all the grandchildren
+                size_t ichild = childMin(0);
+                size_t igrand = grandchildMin(0);
+                return cmp_(data_[ichild], data_[igrand]) ? data_[ichild] : data_[igrand];
             }
         }
 
-        /** Returns the next minimum element.
+        /** Returns the next maximum element.
          */
         const Value& nextBottom() const {
             ROFL_ASSERT(!data_.empty());
             if (data_.size() < 3) {
                 return data_[0];
             } else {
-                return data_[childMin(0)];
+                // Candidates: the sibling of the maximum, its children and its grandchildren
+                size_t imax = childMax(0);
+                size_t inext = 3 - imax;
+                size_t ichild = childMax(imax);
+                size_t igrand = grandchildMax(imax);
+                if (ichild < data_.size() && cmp_(data_[inext], data_[ichild])) {
+                    inext = ichild;
+                }
+                if (igrand < data_.size() && cmp_(data_[inext], data_[igrand])) {
+                    inext = igrand;
+                }
+                return data_[inext];
             }
         }
 
-- 
2.43.0


From 98464aa2528bcf9bfd8bc5e2b643bea52acd04f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:12 +0000
Subject: [PATCH 03/42] fix: disjoint set: a failed initialization keeps the
 previous sets

---
 common/src/disjoint_set.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/common/src/disjoint_set.cpp b/common/src/disjoint_set.cpp
index c12ceea..8aa6b06 100644
--- a/common/src/disjoint_set.cpp
+++ b/common/src/disjoint_set.cpp
@@ -37,14 +37,15 @@ namespace rofl {
 
     void DisjointSet::initSets(id_type num) {
         Node n;
-        nodes_.clear();
-        setNum_ = num;
+        std::vector<Node> nodes;
         for (id_type i = 0; i < num; ++i) {
             n.parent = i;
             n.rank = 0;
             n.size = 1;
-            nodes_.push_back(n);
+            nodes.push_back(n);
         }
+        nodes_.swap(nodes);
+        setNum_ = num;
     }
 
     DisjointSet::id_type DisjointSet::makeSet() {
-- 
2.43.0


From 9efd46fd92716730c0b543c1c60e94839485cd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:12 +0000
Subject: [PATCH 04/42] fix: disjoint set: makeSet() counts the new set

---
 common/src/disjoint_set.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/src/disjoint_set.cpp b/common/src/disjoint_set.cpp
index 8aa6b06..4e220fd 100644
--- a/common/src/disjoint_set.cpp
+++ b/common/src/disjoint_set.cpp
@@ -54,6 +54,7 @@ namespace rofl {
         n.rank = 0;
         n.size = 1;
         nodes_.push_back(n);
+        setNum_++;
         return n.parent;
     }
 
-- 
2.43.0


From 8302b10be083ab23e3b1a0a3ae2dd3499ae198da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:12 +0000
Subject: [PATCH 05/42] fix: disjoint set: invalid identifiers do not access
 nodes out of range

---
 common/include/rofl/common/disjoint_set.h | 1 +
 common/src/disjoint_set.cpp               | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/include/rofl/common/disjoint_set.h b/common/include/rofl/common/disjoint_set.h
index 31296b6..c3f883d 100644
--- a/common/include/rofl/common/disjoint_set.h
+++ b/common/include/rofl/common/disjoint_set.h
@@ -82,6 +82,7 @@ namespace rofl {
          */
         size_t size(int n) {
             id_type root = find(n);
+            if (root >= (id_type) nodes_.size()) return 0;
             return nodes_[root].size;
         }
 
diff --git a/common/src/disjoint_set.cpp b/common/src/disjoint_set.cpp
index 4e220fd..c75d019 100644
--- a/common/src/disjoint_set.cpp
+++ b/common/src/disjoint_set.cpp
@@ -77,8 +77,9 @@ namespace rofl {
     DisjointSet::id_type DisjointSet::join(id_type n1, id_type n2) {
         id_type root1 = find(n1);
         id_type root2 = find(n2);
-        // If n1 and n2 are already in the same set, there is no join to do
+        // If n1 and n2 are already in the same set or are not valid, there is no join to do
         if (root1 == root2) return nodes_.size();
+        if (root1 == (id_type) nodes_.size() || root2 == (id_type) nodes_.size()) return nodes_.size();
 
         setNum_--;
         if (nodes_[root1].rank < nodes_[root2].rank) {
-- 
2.43.0


From 0bd14ce7d5cb484c25067c226eee9c22b6756474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:12 +0000
Subject: [PATCH 06/42] fix: label set: comparison of sets with different sizes

---
 common/src/label_set.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/src/label_set.cpp b/common/src/label_set.cpp
index be5586b..5e0d2dd 100644
--- a/common/src/label_set.cpp
+++ b/common/src/label_set.cpp
@@ -54,11 +54,11 @@ namespace rofl {
     }
     
     bool LabelSet::operator==(const LabelSet& ls) const {
-        return std::equal(labels_.begin(), labels_.end(), ls.labels_.begin());
+        return labels_ == ls.labels_;
     }
     
     bool LabelSet::operator!=(const LabelSet& ls) const {
-        return !std::equal(labels_.begin(), labels_.end(), ls.labels_.begin());
+        return labels_ != ls.labels_;
     }
 
     bool LabelSet::insert(Label label) {
-- 
2.43.0


From daff89e846448ce6f7fe1a2690aa88e1956c7ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:12 +0000
Subject: [PATCH 07/42] fix: grid: a failed initialization keeps domain and
 data consistent

---
 common/include/rofl/common/grid.h | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/common/include/rofl/common/grid.h b/common/include/rofl/common/grid.h
index ec6c692..bb14295 100644
--- a/common/include/rofl/common/grid.h
+++ b/common/include/rofl/common/grid.h
@@ -54,23 +54,28 @@ namespace rofl {
         void initBounds(const Indices& dimensions) {
             Indices zeros;
             zeros.fill(0);
-            domain_.initBounds(zeros, dimensions);
-            data_.resize(domain_.size());
+            initBounds(zeros, dimensions);
         }
 
         void initBounds(const Indices& min, const Indices& dimensions) {
-            domain_.initBounds(min, dimensions);
-            data_.resize(domain_.size());
+            IntervalType domain;
+            domain.initBounds(min, dimensions);
+            data_.resize(domain.size());
+            domain_ = domain;
         }
 
         void initCenter(const Indices& icenter, const Indices& iwin) {
-            domain_.initCentered(icenter, iwin);
-            data_.resize(domain_.size());
+            IntervalType domain;
+            domain.initCentered(icenter, iwin);
+            data_.resize(domain.size());
+            domain_ = domain;
         }
 
         void initMinMax(const Indices& imin, const Indices& imax) {
-            domain_.initMinMax(imin, imax);
-            data_.resize(domain_.size());
+            IntervalType domain;
+            domain.initMinMax(imin, imax);
+            data_.resize(domain.size());
+            domain_ = domain;
         }
 
         size_t size() const {
-- 
2.43.0


From 988010590605b299f9cc88ca1cf9b488a2e5a747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:12 +0000
Subject: [PATCH 08/42] fix: morton tree: insert() keeps the given id when it
 is not reset

---
 common/include/rofl/common/morton_tree.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/common/include/rofl/common/morton_tree.h b/common/include/rofl/common/morton_tree.h
index c2064fa..0487685 100644
--- a/common/include/rofl/common/morton_tree.h
+++ b/common/include/rofl/common/morton_tree.h
@@ -173,8 +173,7 @@ class MortonTree {
      * the insertion order into the tree.
      */
     void insert(const Item& item, bool resetId = true) {
-        Item itemCopy;
-        std::copy(item.values, item.values + Dim, itemCopy.values);
+        Item itemCopy = item;
         if (resetId) {
             itemCopy.id = items_.size();
         }
-- 
2.43.0


From 5b294ab3a51554c34be713cee12700f627b1e64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:12 +0000
Subject: [PATCH 09/42] fix: morton tree: interrupted insertion with converter
 leaves the items unordered

---
 common/include/rofl/common/morton_tree.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/include/rofl/common/morton_tree.h b/common/include/rofl/common/morton_tree.h
index 0487685..fd6a42b 100644
--- a/common/include/rofl/common/morton_tree.h
+++ b/common/include/rofl/common/morton_tree.h
@@ -231,6 +231,7 @@ class MortonTree {
         size_t sizeCur = items_.size();
 
         items_.reserve(sizeInc);
+        ordered_ = false; // also if the converter throws after some insertions
         for (It it = beg; it != end; ++it) {
             item = converter(*it);
             if (resetId) {
-- 
2.43.0


From 83245ee0e581b4302f80b312c42d0855bfd6decb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:29 +0000
Subject: [PATCH 10/42] fix: PNEBI LUT: a failed initialization keeps the
 previous table

---
 common/src/functions.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/common/src/functions.cpp b/common/src/functions.cpp
index bb9f57b..881b200 100755
--- a/common/src/functions.cpp
+++ b/common/src/functions.cpp
@@ -241,27 +241,30 @@ namespace rofl {
         // Case  f'(0,x0) = 0 occurs only for x0 -> +inf. When |f'(0,x)| < eps, the algorithm stops.
         int lutNum = (int) ceil(2.0 / tol) + 20;
         double x, y0prev, ratio, deriv;
+        std::vector<PnebiPoint> lut;
 
         // Inserts initial point x=0.0
         x = 0.0;
-        orderMax_ = n;
-        tolerance_ = tol;
-        lut_.clear();
-        lut_.reserve(lutNum);
-        lut_.push_back(PnebiPoint(n, x));
-        deriv = lut_.back().y[1] - lut_.back().y[0]; // Initial value of deriv is -2.0
-        y0prev = lut_.back().y[0];
+        lut.reserve(lutNum);
+        lut.push_back(PnebiPoint(n, x));
+        deriv = lut.back().y[1] - lut.back().y[0]; // Initial value of deriv is -2.0
+        y0prev = lut.back().y[0];
         //  std::cout << "x " << x << ", deriv " << deriv << std::endl;
         for (int i = 1; i < lutNum; ++i) {
             x = x - tol / deriv;
-            lut_.push_back(PnebiPoint(n, x));
-            ratio = deriv * (y0prev - lut_.back().y[0]) / tol;
-            deriv = std::min(std::max(lut_.back().y[1] - lut_.back().y[0], ratio), -10.0 * std::numeric_limits<double>::min());
+            lut.push_back(PnebiPoint(n, x));
+            ratio = deriv * (y0prev - lut.back().y[0]) / tol;
+            deriv = std::min(std::max(lut.back().y[1] - lut.back().y[0], ratio), -10.0 * std::numeric_limits<double>::min());
             //            std::cout << "x " << x << ", y[0] " << lut_.back().y[0] << " (incr prev y[0] " << (lut_.back().y[0] - y0prev) << "), "
             //                      << "real deriv " << (lut_.back().y[1] - lut_.back().y[0]) << ", deriv " << deriv << ", ratio " << ratio << std::endl;
-            y0prev = lut_.back().y[0];
+            y0prev = lut.back().y[0];
         }
         //std::cout << __FILE__ << "," << __LINE__ << ": lut num " << lut_.size() << ", x max " << lut_.back().x << " -> y[0] " << lut_.back().y[0] << std::endl;
+
+        // The new LUT replaces the previous one only when it is complete
+        lut_.swap(lut);
+        orderMax_ = n;
+        tolerance_ = tol;
     }
 
     double PnebiLUT::eval(int k, double x) const {
-- 
2.43.0


From 2739bc233dda7cff12ee7dc32c7b4dae364989d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:22 +0000
Subject: [PATCH 11/42] fix: param map: read from stream lines of any length
 and report stream failures

---
 common/src/param_map.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/common/src/param_map.cpp b/common/src/param_map.cpp
index 11d738d..e053317 100644
--- a/common/src/param_map.cpp
+++ b/common/src/param_map.cpp
@@ -34,10 +34,10 @@ namespace rofl {
     bool ParamMap::read(std::istream& in) {
         std::string name;
         std::string value;
-        std::string length;
-        char buffer[MAX_LEN];
-        while (in.getline(buffer, MAX_LEN)) {
-            std::stringstream ss(buffer);
+        std::string line;
+        while (std::getline(in, line)) {
+            std::stringstream ss(line);
+            ss.exceptions(std::ios::badbit); // out of memory is not a malformed line
             if (ss >> name >> value) {
                 if (name.empty() || name.at(0) == COMMENT) {
                     continue;
@@ -56,7 +56,7 @@ namespace rofl {
         //      table_.insert(std::make_pair(name, value));
         //    }
         //  }
-        return true;
+        return in.eof() && !in.bad();
     }
 
     bool ParamMap::read(std::string& filename) {
-- 
2.43.0


From 274561ab122fd5d362bf3d40ce4abf6db948e5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:22 +0000
Subject: [PATCH 12/42] fix: param map: file load and save report I/O failures

---
 common/src/param_map.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/common/src/param_map.cpp b/common/src/param_map.cpp
index e053317..667208a 100644
--- a/common/src/param_map.cpp
+++ b/common/src/param_map.cpp
@@ -65,9 +65,9 @@ namespace rofl {
             std::cerr << __FILE__ << "," << __LINE__ << ": Cannot open \"" << filename << "\"" << std::endl;
             return false;
         }
-        read(file);
+        bool ok = read(file);
         file.close();
-        return true;
+        return ok;
     }
 
     bool ParamMap::read(int argc, char** argv) {
@@ -100,14 +100,14 @@ namespace rofl {
         for (const_iterator it = table_.begin(); it != table_.end(); ++it) {
             out << it->first << " " << it->second << std::endl;
         }
-        return true;
+        return static_cast<bool>(out);
     }
 
     bool ParamMap::write(std::ostream &out, const std::string &linePrefix) const {
         for (const_iterator it = table_.begin(); it != table_.end(); ++it) {
             out << linePrefix << it->first << " " << it->second << std::endl;
         }
-        return true;
+        return static_cast<bool>(out);
     }
 
     bool ParamMap::write(std::string& filename) const {
@@ -116,9 +116,9 @@ namespace rofl {
             std::cerr << __FILE__ << "," << __LINE__ << ": Cannot open \"" << filename << "\"" << std::endl;
             return false;
         }
-        write(file);
+        bool ok = write(file);
         file.close();
-        return true;
+        return ok && file.good();
     }
 
     void ParamMap::setParamString(std::string paramName, std::string paramValue) {
-- 
2.43.0


From fa54e4b75ef00104482e9930fe3369c2fdb50bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:22 +0000
Subject: [PATCH 13/42] fix: param map: storing a value never loses the
 previous one when memory runs out

---
 common/include/rofl/common/param_map.h | 5 +++--
 common/src/param_map.cpp               | 9 +++------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/common/include/rofl/common/param_map.h b/common/include/rofl/common/param_map.h
index a2f14fa..69b7eef 100644
--- a/common/include/rofl/common/param_map.h
+++ b/common/include/rofl/common/param_map.h
@@ -96,9 +96,10 @@ namespace rofl
         void setParam(std::string paramName, const Value &paramValue)
         {
             std::stringstream sstr;
+            sstr.exceptions(std::ios::badbit); // never stores a truncated value
             sstr << paramValue;
-            table_.erase(paramName);
-            table_.insert(std::make_pair(paramName, sstr.str()));
+            std::string text = sstr.str();
+            table_[paramName].swap(text);
         }
 
         /** Casts the string value of a given parameters to the desired value.
diff --git a/common/src/param_map.cpp b/common/src/param_map.cpp
index 667208a..79344d7 100644
--- a/common/src/param_map.cpp
+++ b/common/src/param_map.cpp
@@ -42,8 +42,7 @@ namespace rofl {
                 if (name.empty() || name.at(0) == COMMENT) {
                     continue;
                 }
-                table_.erase(name);
-                table_.insert(std::make_pair(name, value));
+                table_[name].swap(value);
             }
         }
         //  while (in >> name) {
@@ -80,8 +79,7 @@ namespace rofl {
                 std::string paramValue(argv[argi + 1]);
                 if (!isOption(paramValue)) {
                     //                std::cout << "Insert variable \"" << paramNameStripped << "\", value \"" << paramValue << "\"" << std::endl;
-                    table_.erase(paramNameStripped);
-                    table_.insert(std::make_pair(paramNameStripped, paramValue));
+                    table_[paramNameStripped].swap(paramValue);
                     //                const_iterator v = table_.find(paramNameStripped);
                     //                std::cout << "after find" << std::endl;
                     //                if (v != table_.end()) {
@@ -122,8 +120,7 @@ namespace rofl {
     }
 
     void ParamMap::setParamString(std::string paramName, std::string paramValue) {
-        table_.erase(paramName);
-        table_.insert(std::make_pair(paramName, paramValue));
+        table_[paramName].swap(paramValue);
     }
 
     void ParamMap::adaptTildeInPaths()
-- 
2.43.0


From 8301ae0d7f376f4b0197d6e9d86cf1d08e718c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:22 +0000
Subject: [PATCH 14/42] fix: param map: a value that cannot be converted yields
 the default

---
 common/include/rofl/common/param_map.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/include/rofl/common/param_map.h b/common/include/rofl/common/param_map.h
index 69b7eef..69b7f4a 100644
--- a/common/include/rofl/common/param_map.h
+++ b/common/include/rofl/common/param_map.h
@@ -116,6 +116,7 @@ namespace rofl
                 }
                 catch (boost::bad_lexical_cast const &)
                 {
+                    value = defaultValue;
                     std::cerr
                         << __FILE__ << "," << __LINE__ << ": Error: cannot cast string \"" << v->second << "\" to type \"" << typeid(Value).name()
                         << "\" for variable \"" << v->first << "\"" << std::endl;
-- 
2.43.0


From 0decc0152467a48dea21eb040648c1a2af180e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:22 +0000
Subject: [PATCH 15/42] fix: param map: expand home paths without invalidating
 iterators and with any environment

---
 common/src/param_map.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/common/src/param_map.cpp b/common/src/param_map.cpp
index 79344d7..6ff7571 100644
--- a/common/src/param_map.cpp
+++ b/common/src/param_map.cpp
@@ -17,6 +17,7 @@
  */
 #include <rofl/common/param_map.h>
 #include <cstdio>
+#include <cstdlib>
 #include <sstream>
 
 namespace rofl {
@@ -125,19 +126,20 @@ namespace rofl {
 
     void ParamMap::adaptTildeInPaths()
     {
+        const char* home = getenv("HOME");
+        if (home == nullptr)
+        {
+            return;
+        }
+        std::string homePath(home);
+        homePath += "/"; // getenv() return only /home/user -> need to add another
         for (auto it = table_.begin(); it != table_.end(); ++it)
         {
-            auto first = it->first;
-            auto second = it->second;
-            // std::cout << "second with tilde: " << second << std::endl;
-            std::string homePath = getenv("HOME");
-            homePath += "/"; // getenv() return only /home/user -> need to add another
-            // std::cout << "homePath " << homePath << std::endl;
-            if (second.rfind("~") == 0)
+            if (it->second == "~" || it->second.compare(0, 2, "~/") == 0)
             {
+                std::string second = it->second;
                 second.replace(0, 2, homePath);
-                std::cout << "second WITHOUT tilde: " << second << std::endl;
-                setParam(first, second);
+                it->second.swap(second);
             }
         }
     }
-- 
2.43.0


From f50e5cd39bdff0d3347165c51bbe0ca535532c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:47 +0000
Subject: [PATCH 16/42] fix: profiler: variance from the sum of squared
 deviations

---
 common/include/rofl/common/profiler.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/rofl/common/profiler.h b/common/include/rofl/common/profiler.h
index f6a55d6..02c3031 100644
--- a/common/include/rofl/common/profiler.h
+++ b/common/include/rofl/common/profiler.h
@@ -53,7 +53,7 @@ namespace rofl {
 
             double getVariance() const {
                 if (count > 1) {
-                    return (timeAvg / (count - 1));
+                    return (timeVar / (count - 1));
                 } else {
                     return 0.0;
                 }
-- 
2.43.0


From a04986523e6f6166b6a39ebe22194ba3d45ecebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:47 +0000
Subject: [PATCH 17/42] fix: profiler: mean over all the measurements including
 the new one

---
 common/src/profiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/profiler.cpp b/common/src/profiler.cpp
index 77122f3..4d4e120 100644
--- a/common/src/profiler.cpp
+++ b/common/src/profiler.cpp
@@ -31,7 +31,7 @@ namespace rofl {
         } else {
             // Computes mean value and variance with online Welford’s method 
             double timeAvgOld = it->second.timeAvg;
-            it->second.timeAvg += (time - timeAvgOld) / (double) it->second.count;
+            it->second.timeAvg += (time - timeAvgOld) / (double) (it->second.count + 1);
             it->second.timeVar += (time - it->second.timeAvg) * (time - timeAvgOld);
             if (time < it->second.timeMin) {
                 it->second.timeMin = time;
-- 
2.43.0


From 2d0de0dfffd623aa3007f44186e3a9208de0ac6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:47 +0000
Subject: [PATCH 18/42] fix: profiler: concurrent updates and prints of the
 shared statistics

---
 common/include/rofl/common/profiler.h | 2 ++
 common/src/profiler.cpp               | 8 +++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/common/include/rofl/common/profiler.h b/common/include/rofl/common/profiler.h
index 02c3031..e17873d 100644
--- a/common/include/rofl/common/profiler.h
+++ b/common/include/rofl/common/profiler.h
@@ -21,6 +21,7 @@
 #include <iostream>
 #include <map>
 #include <chrono>
+#include <mutex>
 #include <rofl/common/macros.h>
 
 #define ROFL_COMMON_PROFILER_SCOPED_TIMER_HERE rofl::ScopedTimer(ROFL_FILENAME(__FILE__) + "_" + __FUNCTION__ + "_" + ROFL_COMMON_STRING_LINE);
@@ -83,6 +84,7 @@ namespace rofl {
 
     protected:
         std::map<std::string, MeasureStatistic> stats_;
+        mutable std::mutex mutex_; // the only instance is shared by all the threads
 
         /**
          * Default constructor as private member of the class. 
diff --git a/common/src/profiler.cpp b/common/src/profiler.cpp
index 4d4e120..f26f60d 100644
--- a/common/src/profiler.cpp
+++ b/common/src/profiler.cpp
@@ -24,6 +24,7 @@ namespace rofl {
     // ----------------------------------------------------
 
     void Profiler::updateStat(std::string label, double time) {
+        std::lock_guard<std::mutex> lock(mutex_);
         auto it = stats_.find(label);
         if (it == stats_.end()) {
             MeasureStatistic ms(time);
@@ -44,7 +45,12 @@ namespace rofl {
     }
 
     void Profiler::printStats(std::ostream& out) const {
-        for (auto s : stats_) {
+        std::map<std::string, MeasureStatistic> stats;
+        {
+            std::lock_guard<std::mutex> lock(mutex_);
+            stats = stats_;
+        }
+        for (auto& s : stats) {
             out << s.first << " \t"
                     << s.second.timeAvg << " \t"
                     << s.second.getVariance() << " \t"
-- 
2.43.0


From a1c7d97b1336756b373d2ca17ccf640f8221900b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:47 +0000
Subject: [PATCH 19/42] fix: profiler: a timer that cannot record its
 measurement does not terminate the program

---
 common/src/profiler.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/common/src/profiler.cpp b/common/src/profiler.cpp
index f26f60d..f490565 100644
--- a/common/src/profiler.cpp
+++ b/common/src/profiler.cpp
@@ -70,7 +70,12 @@ namespace rofl {
     }
 
     ScopedTimer::~ScopedTimer() {
-        Profiler::getProfiler().updateStat(label_, elapsedTimeMs());
+        double time = elapsedTimeMs();
+        try {
+            Profiler::getProfiler().updateStat(label_, time);
+        } catch (...) {
+            // Out of memory: the measurement is lost, but a destructor must not throw
+        }
     }
 
     double ScopedTimer::elapsedTimeMs() const {
-- 
2.43.0


From bdd1296ff70fc688e6d85d3017bc8d06c0778e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:58 +0000
Subject: [PATCH 20/42] fix: profiler: the scoped timer macro measures its
 whole scope

---
 common/include/rofl/common/profiler.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/include/rofl/common/profiler.h b/common/include/rofl/common/profiler.h
index e17873d..da0f068 100644
--- a/common/include/rofl/common/profiler.h
+++ b/common/include/rofl/common/profiler.h
@@ -24,7 +24,9 @@
 #include <mutex>
 #include <rofl/common/macros.h>
 
-#define ROFL_COMMON_PROFILER_SCOPED_TIMER_HERE rofl::ScopedTimer(ROFL_FILENAME(__FILE__) + "_" + __FUNCTION__ + "_" + ROFL_COMMON_STRING_LINE);
+#define ROFL_COMMON_PROFILER_DETAIL_NAME(LINE) roflScopedTimer##LINE
+#define ROFL_COMMON_PROFILER_DETAIL_NAME_OP(LINE) ROFL_COMMON_PROFILER_DETAIL_NAME(LINE)
+#define ROFL_COMMON_PROFILER_SCOPED_TIMER_HERE rofl::ScopedTimer ROFL_COMMON_PROFILER_DETAIL_NAME_OP(__LINE__)(ROFL_FILENAME(__FILE__) + "_" + __FUNCTION__ + "_" + ROFL_COMMON_STRING_LINE);
 
 namespace rofl {
 
-- 
2.43.0


From 1ab4a3bcb424576decffb40dcfeed89a11f2c650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:41 +0000
Subject: [PATCH 21/42] fix: hough plane: histograms with less than 8 longitude
 bins

---
 geometry/src/hough_plane_detector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometry/src/hough_plane_detector.cpp b/geometry/src/hough_plane_detector.cpp
index a8d08fd..2197bb6 100644
--- a/geometry/src/hough_plane_detector.cpp
+++ b/geometry/src/hough_plane_detector.cpp
@@ -16,6 +16,7 @@
  * along with ROFL.  If not, see <http://www.gnu.org/licenses/>.
  */
 #include <rofl/geometry/hough_plane_detector.h>
+#include <algorithm>
 
 namespace rofl {
 
@@ -198,7 +199,7 @@ namespace rofl {
     void HoughPlaneDetector::insert(const VectorVector3& points) {
         int indicesAngle[3];
         rofl::Scalar rho;
-        int phiNotify = phiNum_ / 8;
+        int phiNotify = std::max(1, phiNum_ / 8);
 
         // Computes the Hough Transform (HT) by incrementing counting cells
         for (indicesAngle[0] = 0; indicesAngle[0] < thetaNum_; ++indicesAngle[0]) {
-- 
2.43.0


From a3c8ee1363a483032b5b3bebc455f6c8baa6c831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:41 +0000
Subject: [PATCH 22/42] fix: hough plane: points just below the distance range
 are not counted in the first bin

---
 geometry/src/hough_plane_detector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/src/hough_plane_detector.cpp b/geometry/src/hough_plane_detector.cpp
index 2197bb6..624b6d0 100644
--- a/geometry/src/hough_plane_detector.cpp
+++ b/geometry/src/hough_plane_detector.cpp
@@ -213,7 +213,7 @@ namespace rofl {
                 for (auto &p : points) {
                     rho = normal(0) * p(0) + normal(1) * p(1) + normal(2) * p(2);
                     //indicesAngle[2] = (int) round((rho - rhoMin_) / rhoRes_);
-                    indicesAngle[2] = (int) ((rho - rhoMin_) / rhoRes_);
+                    indicesAngle[2] = (int) floor((rho - rhoMin_) / rhoRes_);
                     if (0 <= indicesAngle[2] && indicesAngle[2] < rhoNum_) {
                         //houghTransform_.value( { itheta, iphi, irho })++;
                         houghTransform_.value(indicesAngle)++;
-- 
2.43.0


From 4158cbe5ca8cd9780752c18fc653f977a9a4c4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:44 +0000
Subject: [PATCH 23/42] fix: hough plane: a failed initialization keeps the
 previous state

---
 common/include/rofl/common/grid.h     |  8 ++++++++
 geometry/src/hough_plane_detector.cpp | 14 +++++++++++---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/common/include/rofl/common/grid.h b/common/include/rofl/common/grid.h
index bb14295..28cb28c 100644
--- a/common/include/rofl/common/grid.h
+++ b/common/include/rofl/common/grid.h
@@ -51,6 +51,14 @@ namespace rofl {
         virtual ~Grid() {
         }
 
+        Grid(const Type& g) = default;
+
+        Grid(Type&& g) = default;
+
+        Type& operator=(const Type& g) = default;
+
+        Type& operator=(Type&& g) = default;
+
         void initBounds(const Indices& dimensions) {
             Indices zeros;
             zeros.fill(0);
diff --git a/geometry/src/hough_plane_detector.cpp b/geometry/src/hough_plane_detector.cpp
index 624b6d0..7342076 100644
--- a/geometry/src/hough_plane_detector.cpp
+++ b/geometry/src/hough_plane_detector.cpp
@@ -58,8 +58,19 @@ namespace rofl {
     }
 
     void HoughPlaneDetector::init(const Indices3& isize, const Vector3& paramMin, const Vector3& paramRes) {
+        HoughTransformGrid houghTransform;
+        HoughSpectrumGrid houghSpectrum;
+        NormalLutGrid normalLut;
         Scalar ct, st, theta, phi;
 
+        // The new grids replace the current ones only after all the allocations succeeded
+        houghTransform.initBounds(isize);
+        houghSpectrum.initBounds({isize[0], isize[1]});
+        normalLut.initBounds({isize[0], isize[1]});
+        houghTransform_ = std::move(houghTransform);
+        houghSpectrum_ = std::move(houghSpectrum);
+        normalLut_ = std::move(normalLut);
+
         thetaNum_ = isize[0];
         phiNum_ = isize[1];
         rhoNum_ = isize[2];
@@ -69,9 +80,6 @@ namespace rofl {
         thetaRes_ = paramRes(0);
         phiRes_ = paramRes(1);
         rhoRes_ = paramRes(2);
-        houghTransform_.initBounds(isize);
-        houghSpectrum_.initBounds({thetaNum_, phiNum_});
-        normalLut_.initBounds({thetaNum_, phiNum_});
 
         houghTransform_.fill(0);
         houghSpectrum_.fill(0);
-- 
2.43.0


From 9ac3257dd34bdd901ca35d87cfdd51755c5b8247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:44 +0000
Subject: [PATCH 24/42] fix: correspondence graph: complete search of the
 maximum cliques, which are returned

---
 .../correspondence_graph_association.h        |  2 +-
 .../src/correspondence_graph_association.cpp  | 31 ++++++++++---------
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/geometry/include/rofl/geometry/correspondence_graph_association.h b/geometry/include/rofl/geometry/correspondence_graph_association.h
index a29fba0..0b42676 100644
--- a/geometry/include/rofl/geometry/correspondence_graph_association.h
+++ b/geometry/include/rofl/geometry/correspondence_graph_association.h
@@ -195,7 +195,7 @@ namespace rofl {
         
         void convertToAssociation(const LabelSet& correspNodes, AssociationHypothesis& assocHyp) const;
         
-        void executeBronKerbosch(LabelSet cliqueCur, LabelSet candidateNodes, LabelSet excludedNodes);
+        void executeBronKerbosch(LabelSet cliqueCur, LabelSet candidateNodes, LabelSet excludedNodes, std::vector<LabelSet>& cliquesMax) const;
     };
 
 } // end of namespace
diff --git a/geometry/src/correspondence_graph_association.cpp b/geometry/src/correspondence_graph_association.cpp
index 5d8aeed..cd90fca 100644
--- a/geometry/src/correspondence_graph_association.cpp
+++ b/geometry/src/correspondence_graph_association.cpp
@@ -114,7 +114,8 @@ namespace rofl {
         for (int i = 0; i < nodes_.size(); ++i) {
             candidateNodes.insert(i);
         }
-        executeBronKerbosch(cliqueCur, candidateNodes, excludedNodes);
+        cliquesMax.clear();
+        executeBronKerbosch(cliqueCur, candidateNodes, excludedNodes, cliquesMax);
 
         //        for (auto& node0 : nodeList) {
         //            cliqueCur = nodes_[node0].adjacents.unionSet(node0);
@@ -177,28 +178,30 @@ namespace rofl {
         //        }
     }
 
-    void CorrespondenceGraphAssociation::executeBronKerbosch(LabelSet cliqueCur, LabelSet candidateNodes, LabelSet excludedNodes) {
-        static int iterCount = 0;
-
-        iterCount++;
-        ROFL_VAR1(iterCount);
-        if (iterCount >= 200) {
+    void CorrespondenceGraphAssociation::executeBronKerbosch(LabelSet cliqueCur, LabelSet candidateNodes, LabelSet excludedNodes, std::vector<LabelSet>& cliquesMax) const {
+        if (candidateNodes.empty() && excludedNodes.empty()) {
+            // Keeps only the largest among the maximal cliques
+            if (!cliquesMax.empty() && cliqueCur.size() > cliquesMax.back().size()) {
+                cliquesMax.clear();
+            }
+            if (cliquesMax.empty() || cliqueCur.size() == cliquesMax.back().size()) {
+                cliquesMax.push_back(cliqueCur);
+            }
             return;
         }
 
-        if (candidateNodes.empty() && excludedNodes.empty()) {
-            //return cliqueCur;
-            ROFL_MSG("maximum clique: " << cliqueCur);
+        // Prunes the branches that cannot reach the size of the largest clique
+        if (!cliquesMax.empty() && cliqueCur.size() + candidateNodes.size() < cliquesMax.back().size()) {
             return;
         }
 
-        for (auto& n : candidateNodes) {
-            ROFL_VAR4(n, cliqueCur, candidateNodes, excludedNodes);
+        // Visits a copy since the set of candidates changes during the visit
+        LabelSet visitNodes = candidateNodes;
+        for (auto& n : visitNodes) {
             LabelSet cliqueCurNew = cliqueCur.unionSet(n);
             LabelSet candidateNodesNew = candidateNodes.intersectionSet(nodes_[n].adjacents);
             LabelSet excludedNodesNew = excludedNodes.intersectionSet(nodes_[n].adjacents);
-            ROFL_VAR4(n, cliqueCurNew, candidateNodesNew, excludedNodesNew);
-            executeBronKerbosch(cliqueCurNew, candidateNodesNew, excludedNodesNew);
+            executeBronKerbosch(cliqueCurNew, candidateNodesNew, excludedNodesNew, cliquesMax);
             candidateNodes.remove(n);
             excludedNodes.insert(n);
         }
-- 
2.43.0


From 2ab51205f69dfc61e99240b47a3710c454ee1c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:44 +0000
Subject: [PATCH 25/42] fix: correspondence graph: every association builds its
 own graph

---
 geometry/src/correspondence_graph_association.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geometry/src/correspondence_graph_association.cpp b/geometry/src/correspondence_graph_association.cpp
index cd90fca..f036b28 100644
--- a/geometry/src/correspondence_graph_association.cpp
+++ b/geometry/src/correspondence_graph_association.cpp
@@ -52,6 +52,7 @@ namespace rofl {
         // Creates the list of correspondence nodes.
         // Each node represents an association between a source and a destination
         // point/item. 
+        nodes_.clear();
         nodes_.reserve(numSrc_ * numDst_);
         node.adjacents.clear();
         for (int is = 0; is < numSrc_; ++is) {
-- 
2.43.0


From d1e87782d0329161762489e25201624282bf589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:44 +0000
Subject: [PATCH 26/42] fix: correspondence graph: inserted items replace the
 previous ones

---
 .../correspondence_graph_association.h        | 28 ++++++++++++-------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/geometry/include/rofl/geometry/correspondence_graph_association.h b/geometry/include/rofl/geometry/correspondence_graph_association.h
index 0b42676..5de8130 100644
--- a/geometry/include/rofl/geometry/correspondence_graph_association.h
+++ b/geometry/include/rofl/geometry/correspondence_graph_association.h
@@ -121,19 +121,23 @@ namespace rofl {
          */
         template <typename It, typename Dist>
         void insertSrc(It beg, It end, Dist dist) {
-            numSrc_ = std::distance(beg, end);
-            distancesSrc_.reserve(numSrc_ * (numSrc_ - 1) / 2);
-            insertPairDistances(beg, end, dist, std::back_inserter(distancesSrc_));
+            PairDistanceVector distances;
+            size_t num = std::distance(beg, end);
+            distances.reserve(num * (num - 1) / 2);
+            insertPairDistances(beg, end, dist, std::back_inserter(distances));
 
-            std::sort(distancesSrc_.begin(), distancesSrc_.end(),
+            std::sort(distances.begin(), distances.end(),
                     [&](const PairDistance& pd0, const PairDistance & pd1) -> bool {
                         return pd0.distance < pd1.distance;
                     });
 
             ROFL_MSG("source pairwise distances");
-            for (auto& pd : distancesSrc_) {
+            for (auto& pd : distances) {
                 std::cout << "  i0 " << pd.i0 << " i1 " << pd.i1 << " dist " << pd.distance << "\n";
             }
+
+            distancesSrc_.swap(distances);
+            numSrc_ = num;
         }
 
         /**
@@ -150,19 +154,23 @@ namespace rofl {
          */
         template <typename It, typename Dist>
         void insertDst(It beg, It end, Dist dist) {
-            numDst_ = std::distance(beg, end);
-            distancesSrc_.reserve(numDst_ * (numDst_ - 1) / 2);
-            insertPairDistances(beg, end, dist, std::back_inserter(distancesDst_));
+            PairDistanceVector distances;
+            size_t num = std::distance(beg, end);
+            distances.reserve(num * (num - 1) / 2);
+            insertPairDistances(beg, end, dist, std::back_inserter(distances));
 
-            std::sort(distancesDst_.begin(), distancesDst_.end(),
+            std::sort(distances.begin(), distances.end(),
                     [&](const PairDistance& pd0, const PairDistance & pd1) -> bool {
                         return pd0.distance < pd1.distance;
                     });
 
             ROFL_MSG("destination pairwise distances");
-            for (auto& pd : distancesDst_) {
+            for (auto& pd : distances) {
                 std::cout << "  i0 " << pd.i0 << " i1 " << pd.i1 << " dist " << pd.distance << "\n";
             }
+
+            distancesDst_.swap(distances);
+            numDst_ = num;
         }
 
         void associate(std::vector<LabelSet>& cliquesMax);
-- 
2.43.0


From 3076390a233f7514f2e13be4e5f8a7f016ae7c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:10 +0000
Subject: [PATCH 27/42] fix: io: stamped strings do not use the shared result
 of localtime

---
 common/src/io.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/src/io.cpp b/common/src/io.cpp
index 2d3da94..08bc9f0 100644
--- a/common/src/io.cpp
+++ b/common/src/io.cpp
@@ -60,7 +60,9 @@ namespace rofl {
 
     std::string generateStampedString(const std::string prefix, const std::string postfix) {
         std::time_t now = std::time(nullptr);
-        std::tm tm = *std::localtime(&now);
+        std::tm tm;
+        tzset(); // as std::localtime(), but without its result shared by all the threads
+        localtime_r(&now, &tm);
         std::stringstream ss;
         ss << prefix << std::put_time(&tm, "%Y%m%d_%H%M_%S") << postfix;
         return ss.str();
-- 
2.43.0


From 17490723426694e37d86c9eb41742bfa66165364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:44 +0000
Subject: [PATCH 28/42] fix: io: a stamped string is never truncated when
 memory runs out

---
 common/src/io.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/src/io.cpp b/common/src/io.cpp
index 08bc9f0..4a6b6c7 100644
--- a/common/src/io.cpp
+++ b/common/src/io.cpp
@@ -64,6 +64,7 @@ namespace rofl {
         tzset(); // as std::localtime(), but without its result shared by all the threads
         localtime_r(&now, &tm);
         std::stringstream ss;
+        ss.exceptions(std::ios::badbit); // out of memory: throw instead of returning a truncated name
         ss << prefix << std::put_time(&tm, "%Y%m%d_%H%M_%S") << postfix;
         return ss.str();
 //        boost::posix_time::ptime now = boost::posix_time::microsec_clock::local_time();
-- 
2.43.0


From 297eae0e28ac3b6d11626b8e1cfa0fb52de5b13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:13 +0000
Subject: [PATCH 29/42] fix: interval indices: boustrophedon visit moves one
 step at a time in any dimension

---
 common/include/rofl/common/interval_indices.h | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/common/include/rofl/common/interval_indices.h b/common/include/rofl/common/interval_indices.h
index 4e5e78f..bfde347 100644
--- a/common/include/rofl/common/interval_indices.h
+++ b/common/include/rofl/common/interval_indices.h
@@ -139,15 +139,10 @@ namespace rofl {
                 for (int d = 0; d < Dim; ++d) {
                     indices[d] = res % dimensions[d];
                     res = res / dimensions[d];
-                }
-                Index odd = 0;
-                for (int d = Dim - 1; d >= 0; --d) {
-                    //ROFL_VAR3(d, indices[d], odd);
-                    if (odd) {
-                        odd = indices[d] % 2;
+                    // res counts the completed runs along dimension d: every odd
+                    // run is visited backward
+                    if (d + 1 < Dim && res % 2) {
                         indices[d] = dimensions[d] - indices[d] - 1;
-                    } else {
-                        odd = indices[d] % 2;
                     }
                     indices[d] += minval[d];
                 }
-- 
2.43.0


From c6d4be022dddaefe365c5a62cbb5c39ef545a159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:13 +0000
Subject: [PATCH 30/42] fix: peak finder: report every peak, including the
 first cell and cells queued twice

---
 common/include/rofl/common/peak_finder_d.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/common/include/rofl/common/peak_finder_d.h b/common/include/rofl/common/peak_finder_d.h
index a5c6bfd..ddf8df7 100644
--- a/common/include/rofl/common/peak_finder_d.h
+++ b/common/include/rofl/common/peak_finder_d.h
@@ -148,7 +148,6 @@ namespace rofl {
             }
             //ROFL_VAR4(*domainIt, windowInterval, novelInterval, windowItems.size());
             indicesPrev = *domainIt;
-            ++domainIt;
 
             // Moves the window on each cell of domain in boustrophedon order
             for (; domainIt != domainEnd; ++domainIt) {
@@ -174,14 +173,17 @@ namespace rofl {
                 if (!enableFilterMinValue_ || comp_(map(*domainIt), valueMin_)) {
                     if (!windowItems.empty() && !comp_(map(windowItems.top()), map(*domainIt))) {
                         //ROFL_VAR4(outIdx(*domainIt), map(*domainIt), outIdx(windowItems.top()), map(windowItems.top()));
-                        //ROFL_VAR3(outIdx(windowItems.nextTop()), map(windowItems.nextTop()), comp_(map(*domainIt), map(windowItems.nextTop())));
-                        //Indices curTop = windowItems.top();
-                        //windowItems.popTop();
-                        if (comp_(map(*domainIt), map(windowItems.nextTop()))) {
+                        // The queue also stores items already out of the window and repeated
+                        // items, hence the other cells are searched in the window itself
+                        bool strict = true;
+                        IntervalType visible = windowInterval.intersect(domain_);
+                        for (auto it = visible.beginRaster(); it != visible.endRaster() && strict; ++it) {
+                            strict = (*it == *domainIt || comp_(map(*domainIt), map(*it)));
+                        }
+                        if (strict) {
                             //insertMax = *domainIt;
                             maxima.push(*domainIt);
                         }
-                        //windowItems.push(curTop);
                     }
                 }
                 indicesPrev = *domainIt;
-- 
2.43.0


From 7bd34813e20d2daf6c84687ed25b16b2129ba190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:13 +0000
Subject: [PATCH 31/42] fix: hough plane detector: plane params of given
 indices include the minimum rho

---
 geometry/src/hough_plane_detector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/src/hough_plane_detector.cpp b/geometry/src/hough_plane_detector.cpp
index 7342076..b84d714 100644
--- a/geometry/src/hough_plane_detector.cpp
+++ b/geometry/src/hough_plane_detector.cpp
@@ -183,7 +183,7 @@ namespace rofl {
         ROFL_ASSERT_VAR2(0 <= irho && irho < rhoNum_, irho, rhoNum_);
         PlaneParam planeParam;
         const Vector3 normal = getNormal(itheta, iphi);
-        planeParam << normal(0), normal(1), normal(2), -(rhoRes_ * irho);
+        planeParam << normal(0), normal(1), normal(2), -(rhoRes_ * irho + rhoMin_);
         return planeParam;
     }
 
-- 
2.43.0


From 691742332359fdaf42bdfb2ef322cfdc045803eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:51 +0000
Subject: [PATCH 32/42] fix: hough line detector: a failed initialization keeps
 the previous state

---
 geometry/src/hough_line_detector.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/geometry/src/hough_line_detector.cpp b/geometry/src/hough_line_detector.cpp
index 402f15d..138c30a 100644
--- a/geometry/src/hough_line_detector.cpp
+++ b/geometry/src/hough_line_detector.cpp
@@ -50,7 +50,18 @@ namespace rofl {
     }
 
     void HoughLineDetector::init(const Indices2& isize, const Vector2& paramMin, const Vector2& paramRes) {
-        Scalar ct, st, theta, phi;
+        HoughTransformGrid houghTransform;
+        HoughSpectrumGrid houghSpectrum;
+        NormalLutGrid normalLut;
+        Scalar theta;
+
+        // The new histograms replace the current ones only after all the allocations succeeded
+        houghTransform.initBounds(isize);
+        houghSpectrum.resize(isize[0]);
+        normalLut.resize(isize[0]);
+        houghTransform_ = std::move(houghTransform);
+        houghSpectrum_.swap(houghSpectrum);
+        normalLut_.swap(normalLut);
 
         thetaNum_ = isize[0];
         rhoNum_ = isize[1];
@@ -58,9 +69,6 @@ namespace rofl {
         rhoMin_ = paramMin(1);
         thetaRes_ = paramRes(0);
         rhoRes_ = paramRes(1);
-        houghTransform_.initBounds(isize);
-        houghSpectrum_.resize(thetaNum_);
-        normalLut_.resize(thetaNum_);
 
         houghTransform_.fill(0);
         std::fill(houghSpectrum_.begin(), houghSpectrum_.end(), 0);
-- 
2.43.0


From cbefce2583a5fa3b9d1382575bfe01e793b018eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:51 +0000
Subject: [PATCH 33/42] fix: hough line detector: insert() did not count the
 points

---
 geometry/src/hough_line_detector.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/geometry/src/hough_line_detector.cpp b/geometry/src/hough_line_detector.cpp
index 138c30a..4d1f11c 100644
--- a/geometry/src/hough_line_detector.cpp
+++ b/geometry/src/hough_line_detector.cpp
@@ -136,7 +136,27 @@ namespace rofl {
     }
 
     void HoughLineDetector::insert(const VectorVector2& points) {
+        Indices2 indices;
+        Scalar rho;
+
+        for (indices[0] = 0; indices[0] < thetaNum_; ++indices[0]) {
+            // Computes the Hough Transform (HT) by incrementing counting cells
+            const Vector2& normal = normalLut_[indices[0]];
+            for (auto& p : points) {
+                rho = normal(0) * p(0) + normal(1) * p(1);
+                indices[1] = (int) floor((rho - rhoMin_) / rhoRes_);
+                if (0 <= indices[1] && indices[1] < rhoNum_) {
+                    houghTransform_.value(indices)++;
+                }
+            }
 
+            // Computes Hough Spectrum (HS)
+            houghSpectrum_[indices[0]] = 0;
+            for (indices[1] = 0; indices[1] < rhoNum_; ++indices[1]) {
+                const Counter& htVal = houghTransform_.value(indices);
+                houghSpectrum_[indices[0]] += htVal * htVal;
+            }
+        }
     }
 
     void HoughLineDetector::findSpectrumIndicesMax(std::vector<Indices1>& indicesMaxima) const {
-- 
2.43.0


From 91dc98e7bf3bab4f4e2135fa94ff39a57bbbfe32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:43 +0000
Subject: [PATCH 34/42] fix: box registration: the initial estimation could
 mirror the box

---
 geometry/include/rofl/geometry/box_registration.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/geometry/include/rofl/geometry/box_registration.h b/geometry/include/rofl/geometry/box_registration.h
index 36c1452..432de10 100644
--- a/geometry/include/rofl/geometry/box_registration.h
+++ b/geometry/include/rofl/geometry/box_registration.h
@@ -234,6 +234,11 @@ namespace rofl {
                 << "eigen vectors:\n" << eigenSolver.eigenvectors() << "\n";
 
         transf.linear() = eigenSolver.eigenvectors() * perm_;
+        // The axes must define a rotation: the box is symmetric, hence the 
+        // direction of an axis can be inverted
+        if (transf.linear().determinant() < 0.0) {
+            transf.linear().col(0) = -transf.linear().col(0);
+        }
         transf.translation() = centroid;
         transf.makeAffine();
     }
-- 
2.43.0


From 11d7f1dff288461cf9073e4e79c75eb326ae3ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:29 +0000
Subject: [PATCH 35/42] fix: box registration: the rotation of a step was not
 optimal in 3D when a reflection had to be avoided

---
 geometry/include/rofl/geometry/box_registration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/include/rofl/geometry/box_registration.h b/geometry/include/rofl/geometry/box_registration.h
index 432de10..6dfb2a9 100644
--- a/geometry/include/rofl/geometry/box_registration.h
+++ b/geometry/include/rofl/geometry/box_registration.h
@@ -190,7 +190,7 @@ namespace rofl {
         else
             d = -1.0;
         SquareMatrix I = SquareMatrix::Identity();
-        I(1, 1) = d;
+        I(DIM - 1, DIM - 1) = d;
 
         R = svd.matrixV() * I * svd.matrixU().transpose();
         transl = meanDst - R * meanSrc;
-- 
2.43.0


From 6a56bd9e14b3470dbf157370ea2e3b08be67dad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:27 +0000
Subject: [PATCH 36/42] fix: numeric traits: log2Mod() of 64 bit integers
 counts all the leading zeros

---
 common/include/rofl/common/numeric_traits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/include/rofl/common/numeric_traits.h b/common/include/rofl/common/numeric_traits.h
index b620365..2a0d2b2 100644
--- a/common/include/rofl/common/numeric_traits.h
+++ b/common/include/rofl/common/numeric_traits.h
@@ -258,9 +258,9 @@ struct IntegerTraits<int64_t> {
 
     static IntegerType log2Mod(const IntegerType& i) {
         if (i > 0)
-            return (BIT_NUM - 1 - nlz8(i));
+            return (BIT_NUM - 1 - nlz64(i));
         else if (i < 0)
-            return (BIT_NUM - 1 - nlz8(-i));
+            return (BIT_NUM - 1 - nlz64(-i));
         else
             return 0;  // arbitrary output for invalid argument 0
     }
-- 
2.43.0


From 419b3bc0fa32ed75e4f8f875f57e295ab26c3367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:27 +0000
Subject: [PATCH 37/42] fix: numeric traits: double has 11 exponent bits

---
 common/include/rofl/common/numeric_traits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/rofl/common/numeric_traits.h b/common/include/rofl/common/numeric_traits.h
index 2a0d2b2..81a61e6 100644
--- a/common/include/rofl/common/numeric_traits.h
+++ b/common/include/rofl/common/numeric_traits.h
@@ -437,7 +437,7 @@ struct FloatTraits<double> {
 
     static const int BIT_NUM = 64;
     static const int MANTISSA_BITS = 52;
-    static const int EXPONENT_BITS = 8;
+    static const int EXPONENT_BITS = 11;
     static const int EXPONENT_BIAS = 1023;
 
     static constexpr IntegerType MANTISSA_IMPLICIT_BIT = (IntegerType)1 << MANTISSA_BITS;
-- 
2.43.0


From ef5184025424ccfcac5eaa1c7e46a6afc1ad2fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:27 +0000
Subject: [PATCH 38/42] fix: morton order: consistent comparison of negative
 floating point values

---
 common/include/rofl/common/morton_sort.h | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/common/include/rofl/common/morton_sort.h b/common/include/rofl/common/morton_sort.h
index da42b0d..140e361 100644
--- a/common/include/rofl/common/morton_sort.h
+++ b/common/include/rofl/common/morton_sort.h
@@ -177,11 +177,6 @@ F xorFloat(const F& fin1,
     } else {
         fm2 = 0;
     }
-    // Changes the mantissas sign, if f1 and f2 are both negatives
-    if (fs1) {
-        fm1 = -fm1;
-        fm2 = -fm2;
-    }
     mantissaDiff = fm1 ^ fm2;
 
     if (mantissaDiff == 0) {
-- 
2.43.0


From 0ddee83eded9ed0588800da6354cd5509fdcbc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:27 +0000
Subject: [PATCH 39/42] fix: morton order: negative zero is equal to zero

---
 common/include/rofl/common/morton_sort.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/include/rofl/common/morton_sort.h b/common/include/rofl/common/morton_sort.h
index 140e361..fbb60d6 100644
--- a/common/include/rofl/common/morton_sort.h
+++ b/common/include/rofl/common/morton_sort.h
@@ -157,6 +157,10 @@ F xorFloat(const F& fin1,
     FT::decompose(f1, fm1, fe1, fs1);
     FT::decompose(f2, fm2, fe2, fs2);
 
+    // Zero has no sign: -0.0 and 0.0 are the same value.
+    fs1 = fs1 && (f1 != 0);
+    fs2 = fs2 && (f2 != 0);
+
     // If the input numbers have different signs, then the returned value
     // is the infinity.
     if (fs1 ^ fs2) {
-- 
2.43.0


From 1c19ae9a39d8b75d3c083bf7b063a1517f176e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:34 +0000
Subject: [PATCH 40/42] fix: interval indices: an empty interval has no items

---
 common/include/rofl/common/interval_indices.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/include/rofl/common/interval_indices.h b/common/include/rofl/common/interval_indices.h
index bfde347..d5440ec 100644
--- a/common/include/rofl/common/interval_indices.h
+++ b/common/include/rofl/common/interval_indices.h
@@ -348,6 +348,9 @@ namespace rofl {
         size_t size() const {
             size_t s = 1;
             for (int d = 0; d < Dim; ++d) {
+                if (dimensions_[d] <= 0) {
+                    return 0;
+                }
                 s *= dimensions_[d];
             }
             return s;
-- 
2.43.0


From 287335a87d83ab305ee2bb9e7d474be0767d9b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:16 +0000
Subject: [PATCH 41/42] fix: interval indices: the text of indices is never
 truncated when memory runs out

---
 common/include/rofl/common/interval_indices.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/include/rofl/common/interval_indices.h b/common/include/rofl/common/interval_indices.h
index d5440ec..93cdc2e 100644
--- a/common/include/rofl/common/interval_indices.h
+++ b/common/include/rofl/common/interval_indices.h
@@ -601,6 +601,7 @@ namespace rofl {
     template <typename I, size_t D>
     std::string outIdx(const std::array<I, D>& indices) {
         std::stringstream out;
+        out.exceptions(std::ios::badbit); // out of memory: throw instead of returning a truncated text
         out << "[";
         for (int d = 0; d < D; ++d) {
             out << indices[d];
-- 
2.43.0


From fee7431412fec62947ed9c7e4fd5780495871ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:40 +0000
Subject: [PATCH 42/42] fix: estimateTranslationTls dereferenced the end of an
 empty list when there are no samples

---
 common/include/rofl/common/tls_scalar_consensus.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/include/rofl/common/tls_scalar_consensus.h b/common/include/rofl/common/tls_scalar_consensus.h
index ff2a20c..ef7a58f 100644
--- a/common/include/rofl/common/tls_scalar_consensus.h
+++ b/common/include/rofl/common/tls_scalar_consensus.h
@@ -47,6 +47,9 @@ void estimateTranslationTls(const std::vector<Scalar>& values, const std::vector
 
     ROFL_ASSERT_VAR2(n == ranges.size(), n, ranges.size());
     inliers.resize(n);
+    if (n == 0) {
+        return;  // No sample, no consensus
+    }
     std::vector<Scalar> weights(n);
     std::vector<Scalar> valueHat(ne, 0);
     std::vector<Scalar> valueCost(ne, 0);
-- 
2.43.0

