From 7ebe96da154774d6e0b3847bf01daeb9d60d66ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:35 +0000
Subject: [PATCH 01/18] fix: SpVecGF2::add must not dereference end()

The assertion read *(ones.end()); compare with the last stored coordinate,
and require it to be strictly smaller so that the list stays canonical.
---
 include/parmcb/spvecgf2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parmcb/spvecgf2.hpp b/include/parmcb/spvecgf2.hpp
index f6bdbef..0cb4046 100644
--- a/include/parmcb/spvecgf2.hpp
+++ b/include/parmcb/spvecgf2.hpp
@@ -147,7 +147,7 @@ namespace parmcb {
         }
 
         void add(U pos) {
-            assert(ones.empty() || pos >= *(ones.end()));
+            assert(ones.empty() || pos > ones.back());
 
             ones.push_back(pos);
         }
-- 
2.43.0


From 2ba0ef61a0025490ce34317a371ddb53053cd402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:35 +0000
Subject: [PATCH 02/18] fix: ext_gcd must set both coefficients and leave its
 arguments alone

With a zero argument one coefficient was left unset (and the sign of the
other one was taken from the wrong argument); negative arguments were
overwritten by their absolute values, so a*x + b*y = g failed for the caller.
---
 include/parmcb/fp.hpp | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/include/parmcb/fp.hpp b/include/parmcb/fp.hpp
index 5a51a18..374e96a 100644
--- a/include/parmcb/fp.hpp
+++ b/include/parmcb/fp.hpp
@@ -33,24 +33,30 @@ T fp<T>::ext_gcd(T &a, T &b, T &x, T &y) {
     aneg = a < 0;
     bneg = b < 0;
 
-    a = (a < 0) ? -a : a;
-    b = (b < 0) ? -b : b;
-    if (a == 0) {
+    // work on the absolute values, the arguments belong to the caller
+    T abs_a = a, abs_b = b;
+    if (aneg)
+        abs_a = -abs_a;
+    if (bneg)
+        abs_b = -abs_b;
+    if (abs_a == 0) {
+        x = 0;
         y = bneg ? -1 : 1;
-        return b;
+        return abs_b;
     }
-    if (b == 0) {
-        x = bneg ? -1 : 1;
-        return a;
+    if (abs_b == 0) {
+        x = aneg ? -1 : 1;
+        y = 0;
+        return abs_a;
     }
 
     // swap arguments appropriately
-    _a[0] = a;
-    _a[1] = b;
+    _a[0] = abs_a;
+    _a[1] = abs_b;
     bool swap = false;
-    if (b > a) {
-        _a[0] = b;
-        _a[1] = a;
+    if (abs_b > abs_a) {
+        _a[0] = abs_b;
+        _a[1] = abs_a;
         swap = true;
     }
 
@@ -76,7 +82,7 @@ T fp<T>::ext_gcd(T &a, T &b, T &x, T &y) {
     }
 
 #ifdef PARMCB_INVARIANTS_CHECK
-    assert(_a[1 - i] == ((aneg) ? (-a) : (a)) * x + ((bneg) ? (-b) : (b)) * y);
+    assert(_a[1 - i] == a * x + b * y);
 #endif
 
     return _a[1 - i];
-- 
2.43.0


From 2f4cb84f57c871dacedba0215a77ad23e4b5c80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:35 +0000
Subject: [PATCH 03/18] fix: is_prime(2) and overflow of the square root check

---
 include/parmcb/fp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parmcb/fp.hpp b/include/parmcb/fp.hpp
index 374e96a..2e83363 100644
--- a/include/parmcb/fp.hpp
+++ b/include/parmcb/fp.hpp
@@ -116,11 +116,11 @@ public:
          assert( p >= t );
  #endif
         if (p % 2 == 0)
-            return false;
+            return p == t;
         T zero = T(0);
         T sqrtt = T(sqrt(p)) + 1;
 #ifdef PARMCB_INVARIANTS_CHECK
-         if ( sqrtt * sqrtt < p )
+         if ( sqrtt < p / sqrtt )
              throw new std::runtime_error("error calculating square");
 #endif
         while (t <= sqrtt) {
-- 
2.43.0


From 1473963d8d3dc3dbfcbaabc79692c0c309ad93e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:35 +0000
Subject: [PATCH 04/18] fix: throw exceptions by value

throw new leaks the exception object and cannot be caught as std::exception.
---
 include/parmcb/detail/approx_spanner.hpp |  4 ++--
 include/parmcb/fp.hpp                    | 11 ++++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/parmcb/detail/approx_spanner.hpp b/include/parmcb/detail/approx_spanner.hpp
index 3988cec..9b1c411 100644
--- a/include/parmcb/detail/approx_spanner.hpp
+++ b/include/parmcb/detail/approx_spanner.hpp
@@ -114,7 +114,7 @@ private:
                     spanner_other = boost::source(spanner_ae, _spanner);
                 }
                 if (spanner_other == spanner_w) {
-                    throw new std::runtime_error("Self loops?");
+                    throw std::runtime_error("Self loops?");
                 }
                 spanner_w = spanner_other;
             }
@@ -198,7 +198,7 @@ private:
                                         _spanner);
                             }
                             if (spanner_other == spanner_w) {
-                                throw new std::runtime_error("Self loops?");
+                                throw std::runtime_error("Self loops?");
                             }
                             spanner_w = spanner_other;
                         }
diff --git a/include/parmcb/fp.hpp b/include/parmcb/fp.hpp
index 2e83363..3ef5f9a 100644
--- a/include/parmcb/fp.hpp
+++ b/include/parmcb/fp.hpp
@@ -6,6 +6,11 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <cassert>
+#include <cmath>
+#include <cstddef>
+#include <stdexcept>
+
 namespace parmcb {
 
 template<class T>
@@ -93,12 +98,12 @@ template<class T>
 T fp<T>::get_mult_inverse(T &a, T &p) {
 #ifdef PARMCB_INVARIANTS_CHECK
     if ( p <= 0 )
-        throw new std::runtime_error("p is not positive");
+        throw std::runtime_error("p is not positive");
 #endif
 
     T x, y;
     if (fp<T>::ext_gcd(a, p, x, y) != 1) {
-        throw new std::runtime_error("mult inverse does not exist");
+        throw std::runtime_error("mult inverse does not exist");
     }
     return x;
 }
@@ -121,7 +126,7 @@ public:
         T sqrtt = T(sqrt(p)) + 1;
 #ifdef PARMCB_INVARIANTS_CHECK
          if ( sqrtt < p / sqrtt )
-             throw new std::runtime_error("error calculating square");
+             throw std::runtime_error("error calculating square");
 #endif
         while (t <= sqrtt) {
             if (p % t == zero)
-- 
2.43.0


From 97e2b594bdb5742233f1496e4fb03aead057fd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:35 +0000
Subject: [PATCH 05/18] fix: SpVecFP scalar product must reduce the scalar
 first

value * a overflows the built-in integer types for a large scalar a.
---
 include/parmcb/spvecfp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parmcb/spvecfp.hpp b/include/parmcb/spvecfp.hpp
index 68072b3..ad1afbe 100644
--- a/include/parmcb/spvecfp.hpp
+++ b/include/parmcb/spvecfp.hpp
@@ -166,7 +166,7 @@ public:
             std::size_t index = boost::get<0>(entry);
             P value = boost::get<1>(entry);
 
-            P v = (value * a) % p;
+            P v = (value * P(a % p)) % p;
             while (v < 0)
                 v += p;   // make [-i]_p = [p-i]_p
             while (v >= p)
-- 
2.43.0


From 6e12bb72f7eb2db078389cb937ccbbd2ab9c7820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:01 +0000
Subject: [PATCH 06/18] fix: read_dimacs_from_file must not eat the last
 character of the file

Without a final newline the last digit of the last line was dropped (and an
empty string indexed at -1); the tail of an overlong line was parsed as a line.
---
 include/parmcb/util.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/parmcb/util.hpp b/include/parmcb/util.hpp
index a569267..8225f89 100644
--- a/include/parmcb/util.hpp
+++ b/include/parmcb/util.hpp
@@ -119,7 +119,15 @@ namespace parmcb {
         typename boost::property_map<Graph, boost::edge_weight_t>::type weight = get(boost::edge_weight, graph);
 
         while (fgets(buffer, sizeof(buffer), fp) != NULL) {
-            buffer[strlen(buffer) - 1] = '\0'; // eat the newline
+            std::size_t length = strcspn(buffer, "\n");
+            if (buffer[length] == '\n') {
+                buffer[length] = '\0'; // eat the newline
+            } else {
+                // last line without a newline, or line longer than the buffer: skip its tail
+                int ch;
+                while ((ch = fgetc(fp)) != EOF && ch != '\n')
+                    ;
+            }
             if (buffer[0] == 'c' || buffer[0] == '#') {
                 continue;
             } else if (buffer[0] == 'p') {
-- 
2.43.0


From d9b0f3501f71ab9d40287f110e861a05dbd93c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:01 +0000
Subject: [PATCH 07/18] fix: spanner edges must carry the weights of the input
 edges

---
 include/parmcb/detail/approx_spanner.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/parmcb/detail/approx_spanner.hpp b/include/parmcb/detail/approx_spanner.hpp
index 9b1c411..c41f11d 100644
--- a/include/parmcb/detail/approx_spanner.hpp
+++ b/include/parmcb/detail/approx_spanner.hpp
@@ -351,6 +351,8 @@ private:
                 // add edge to spanner
                 Edge spanner_e = std::get<0>(
                         boost::add_edge(spanner_v, spanner_u, _spanner));
+                boost::put(boost::edge_weight, _spanner, spanner_e,
+                        boost::get(_weight_map, e));
                 _edge_spanner_to_g[spanner_e] = e;
             } else {
                 // record missing edge from spanner
-- 
2.43.0


From c853555153e756c71b404f8fe0914e78bff0cb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:13 +0000
Subject: [PATCH 08/18] fix: approximate algorithms must emit edges of the
 caller's graph

The cycles of the spanner were emitted as edge descriptors of the internal
spanner graph, which is destroyed before the call returns. Collect them and
translate every edge to the input graph.
---
 include/parmcb/detail/approx_spanner.hpp        | 16 +++++++++++++++-
 include/parmcb/parmcb_approx_sva_signed.hpp     |  5 +++--
 include/parmcb/parmcb_approx_sva_signed_tbb.hpp |  5 +++--
 include/parmcb/parmcb_approx_sva_trees.hpp      | 14 ++++++++------
 include/parmcb/parmcb_approx_sva_trees_tbb.hpp  | 14 ++++++++------
 5 files changed, 37 insertions(+), 17 deletions(-)

diff --git a/include/parmcb/detail/approx_spanner.hpp b/include/parmcb/detail/approx_spanner.hpp
index c41f11d..a5d0dc0 100644
--- a/include/parmcb/detail/approx_spanner.hpp
+++ b/include/parmcb/detail/approx_spanner.hpp
@@ -10,6 +10,9 @@
 #include <parmcb/detail/bfs.hpp>
 
 #include <functional>
+#include <iterator>
+#include <list>
+#include <map>
 #include <numeric>
 
 #ifdef PARMCB_HAVE_TBB
@@ -278,7 +281,18 @@ public:
         EdgeWeightMapType spanner_weight_map = get(boost::edge_weight,
                 _spanner);
         ExactAlgorithm exact_mcb_algo;
-        _weight += exact_mcb_algo(_spanner, spanner_weight_map, out);
+        std::list<std::list<Edge>> spanner_cycles;
+        _weight += exact_mcb_algo(_spanner, spanner_weight_map,
+                std::back_inserter(spanner_cycles));
+
+        // translate to edges of the input graph, the spanner dies with us
+        for (const auto &spanner_cycle : spanner_cycles) {
+            std::list<Edge> cycle_edgelist;
+            for (const auto &spanner_e : spanner_cycle) {
+                cycle_edgelist.push_back(_edge_spanner_to_g.at(spanner_e));
+            }
+            *out++ = cycle_edgelist;
+        }
 
         // compute remaining cycles
         parmcb::detail::NonSpannerEdgesCycleBuilder<Graph, WeightMap,
diff --git a/include/parmcb/parmcb_approx_sva_signed.hpp b/include/parmcb/parmcb_approx_sva_signed.hpp
index 2efae66..8e2226b 100644
--- a/include/parmcb/parmcb_approx_sva_signed.hpp
+++ b/include/parmcb/parmcb_approx_sva_signed.hpp
@@ -13,8 +13,9 @@ namespace parmcb {
 
 namespace detail {
 
-template<class Graph, class WeightMap, class CycleOutputIterator>
+template<class Graph>
 struct mcb_sva_signed {
+    template<class WeightMap, class CycleOutputIterator>
     typename boost::property_traits<WeightMap>::value_type operator()(
             const Graph &g, const WeightMap &weight, CycleOutputIterator out) {
         return parmcb::mcb_sva_signed(g, weight, out);
@@ -28,7 +29,7 @@ typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_signed(
         const Graph &g, const WeightMap &weight, std::size_t k,
         CycleOutputIterator out) {
 
-    typedef typename parmcb::detail::mcb_sva_signed<Graph,WeightMap,CycleOutputIterator> ExactAlgo;
+    typedef typename parmcb::detail::mcb_sva_signed<Graph> ExactAlgo;
     parmcb::detail::BaseApproxSpannerAlgorithm<Graph, WeightMap, ExactAlgo, false> algo(g, weight, boost::get(boost::vertex_index, g), k);
     return algo.run(out);
 }
diff --git a/include/parmcb/parmcb_approx_sva_signed_tbb.hpp b/include/parmcb/parmcb_approx_sva_signed_tbb.hpp
index 19d81b8..3500284 100644
--- a/include/parmcb/parmcb_approx_sva_signed_tbb.hpp
+++ b/include/parmcb/parmcb_approx_sva_signed_tbb.hpp
@@ -13,8 +13,9 @@ namespace parmcb {
 
 namespace detail {
 
-template<class Graph, class WeightMap, class CycleOutputIterator>
+template<class Graph>
 struct mcb_sva_signed_tbb {
+    template<class WeightMap, class CycleOutputIterator>
     typename boost::property_traits<WeightMap>::value_type operator()(
             const Graph &g, const WeightMap &weight, CycleOutputIterator out) {
         return parmcb::mcb_sva_signed_tbb(g, weight, out);
@@ -26,7 +27,7 @@ template<class Graph, class WeightMap, class CycleOutputIterator>
 typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_signed_tbb(
         const Graph &g, const WeightMap &weight, std::size_t k,
         CycleOutputIterator out) {
-    typedef typename parmcb::detail::mcb_sva_signed_tbb<Graph,WeightMap,CycleOutputIterator> ExactAlgo;
+    typedef typename parmcb::detail::mcb_sva_signed_tbb<Graph> ExactAlgo;
 
     parmcb::detail::BaseApproxSpannerAlgorithm<Graph, WeightMap, ExactAlgo, true> algo(g, weight, boost::get(boost::vertex_index, g), k);
     return algo.run(out);
diff --git a/include/parmcb/parmcb_approx_sva_trees.hpp b/include/parmcb/parmcb_approx_sva_trees.hpp
index b916eac..7185884 100644
--- a/include/parmcb/parmcb_approx_sva_trees.hpp
+++ b/include/parmcb/parmcb_approx_sva_trees.hpp
@@ -13,16 +13,18 @@ namespace parmcb {
 
 namespace detail {
 
-template<class Graph, class WeightMap, class CycleOutputIterator>
-struct mcb_sva_fvs_trees{
+template<class Graph>
+struct mcb_sva_fvs_trees {
+    template<class WeightMap, class CycleOutputIterator>
     typename boost::property_traits<WeightMap>::value_type operator()(
             const Graph &g, const WeightMap &weight, CycleOutputIterator out) {
         return parmcb::mcb_sva_fvs_trees(g, weight, out);
     }
 };
 
-template<class Graph, class WeightMap, class CycleOutputIterator>
-struct mcb_sva_iso_trees{
+template<class Graph>
+struct mcb_sva_iso_trees {
+    template<class WeightMap, class CycleOutputIterator>
     typename boost::property_traits<WeightMap>::value_type operator()(
             const Graph &g, const WeightMap &weight, CycleOutputIterator out) {
         return parmcb::mcb_sva_iso_trees(g, weight, out);
@@ -36,7 +38,7 @@ typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_fvs_trees(
         const Graph &g, const WeightMap &weight, std::size_t k,
         CycleOutputIterator out) {
 
-    typedef typename parmcb::detail::mcb_sva_fvs_trees<Graph,WeightMap,CycleOutputIterator> ExactAlgo;
+    typedef typename parmcb::detail::mcb_sva_fvs_trees<Graph> ExactAlgo;
     parmcb::detail::BaseApproxSpannerAlgorithm<Graph, WeightMap, ExactAlgo, false> algo(g, weight, boost::get(boost::vertex_index, g), k);
     return algo.run(out);
 }
@@ -46,7 +48,7 @@ typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_iso_trees(
         const Graph &g, const WeightMap &weight, std::size_t k,
         CycleOutputIterator out) {
 
-    typedef typename parmcb::detail::mcb_sva_fvs_trees<Graph,WeightMap,CycleOutputIterator> ExactAlgo;
+    typedef typename parmcb::detail::mcb_sva_fvs_trees<Graph> ExactAlgo;
     parmcb::detail::BaseApproxSpannerAlgorithm<Graph, WeightMap, ExactAlgo, false> algo(g, weight, boost::get(boost::vertex_index, g), k);
     return algo.run(out);
 }
diff --git a/include/parmcb/parmcb_approx_sva_trees_tbb.hpp b/include/parmcb/parmcb_approx_sva_trees_tbb.hpp
index 5abe2ae..4be5bc1 100644
--- a/include/parmcb/parmcb_approx_sva_trees_tbb.hpp
+++ b/include/parmcb/parmcb_approx_sva_trees_tbb.hpp
@@ -13,16 +13,18 @@ namespace parmcb {
 
 namespace detail {
 
-template<class Graph, class WeightMap, class CycleOutputIterator>
-struct mcb_sva_fvs_trees_tbb{
+template<class Graph>
+struct mcb_sva_fvs_trees_tbb {
+    template<class WeightMap, class CycleOutputIterator>
     typename boost::property_traits<WeightMap>::value_type operator()(
             const Graph &g, const WeightMap &weight, CycleOutputIterator out) {
         return parmcb::mcb_sva_fvs_trees_tbb(g, weight, out);
     }
 };
 
-template<class Graph, class WeightMap, class CycleOutputIterator>
-struct mcb_sva_iso_trees_tbb{
+template<class Graph>
+struct mcb_sva_iso_trees_tbb {
+    template<class WeightMap, class CycleOutputIterator>
     typename boost::property_traits<WeightMap>::value_type operator()(
             const Graph &g, const WeightMap &weight, CycleOutputIterator out) {
         return parmcb::mcb_sva_iso_trees_tbb(g, weight, out);
@@ -35,7 +37,7 @@ template<class Graph, class WeightMap, class CycleOutputIterator>
 typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_fvs_trees_tbb(
         const Graph &g, const WeightMap &weight, std::size_t k,
         CycleOutputIterator out) {
-    typedef typename parmcb::detail::mcb_sva_fvs_trees_tbb<Graph,WeightMap,CycleOutputIterator> ExactAlgo;
+    typedef typename parmcb::detail::mcb_sva_fvs_trees_tbb<Graph> ExactAlgo;
     parmcb::detail::BaseApproxSpannerAlgorithm<Graph, WeightMap, ExactAlgo, true> algo(g, weight, boost::get(boost::vertex_index, g), k);
     return algo.run(out);
 }
@@ -44,7 +46,7 @@ template<class Graph, class WeightMap, class CycleOutputIterator>
 typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_iso_trees_tbb(
         const Graph &g, const WeightMap &weight, std::size_t k,
         CycleOutputIterator out) {
-    typedef typename parmcb::detail::mcb_sva_iso_trees_tbb<Graph,WeightMap,CycleOutputIterator> ExactAlgo;
+    typedef typename parmcb::detail::mcb_sva_iso_trees_tbb<Graph> ExactAlgo;
     parmcb::detail::BaseApproxSpannerAlgorithm<Graph, WeightMap, ExactAlgo, true> algo(g, weight, boost::get(boost::vertex_index, g), k);
     return algo.run(out);
 }
-- 
2.43.0


From f35b7adbcdd2584df36c74206e29e276dd9d713d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:13 +0000
Subject: [PATCH 09/18] fix: 2k-1 must not wrap around for a huge k

---
 include/parmcb/detail/approx_spanner.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/parmcb/detail/approx_spanner.hpp b/include/parmcb/detail/approx_spanner.hpp
index a5d0dc0..7ab87c1 100644
--- a/include/parmcb/detail/approx_spanner.hpp
+++ b/include/parmcb/detail/approx_spanner.hpp
@@ -347,6 +347,8 @@ private:
         }
 
         // construct edge set of spanner
+        const std::size_t max_size = (std::numeric_limits<std::size_t>::max)();
+        const std::size_t max_hops = _k <= max_size / 2 ? 2 * _k - 1 : max_size;
         EdgeVectorIt ei, ei_end;
         for (ei = sorted_edges.begin(), ei_end = sorted_edges.end();
                 ei != sorted_edges.end(); ++ei) {
@@ -361,7 +363,7 @@ private:
             }
 
             if (!parmcb::is_bfs_reachable(_spanner, spanner_v, spanner_u,
-                    2 * _k - 1)) {
+                    max_hops)) {
                 // add edge to spanner
                 Edge spanner_e = std::get<0>(
                         boost::add_edge(spanner_v, spanner_u, _spanner));
-- 
2.43.0


From 50d45fd0353c0c997e3d69075e7222199e5e46d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:13 +0000
Subject: [PATCH 10/18] fix: no references to temporaries, no uninitialised
 weight

SPTree, BaseApproxSpannerAlgorithm and VertexIndexFunctor kept a reference to
the temporary returned by get(vertex_index, g); the default constructed
SerializableMinOddCycle was copied around with an indeterminate weight.
---
 include/parmcb/detail/approx_spanner.hpp | 2 +-
 include/parmcb/detail/util.hpp           | 2 +-
 include/parmcb/sptrees.hpp               | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/parmcb/detail/approx_spanner.hpp b/include/parmcb/detail/approx_spanner.hpp
index 7ab87c1..9ec8d79 100644
--- a/include/parmcb/detail/approx_spanner.hpp
+++ b/include/parmcb/detail/approx_spanner.hpp
@@ -309,7 +309,7 @@ private:
     const Graph &_g;
     const WeightMap &_weight_map;
     const std::size_t _k;
-    const VertexIndexMapType &_index_map;
+    const VertexIndexMapType _index_map;
     std::vector<Vertex> _vertex_g_to_spanner_vec;
     const boost::function_property_map<
             parmcb::detail::VertexIndexFunctor<Graph, Vertex>, Vertex, Vertex&> _vertex_g_to_spanner;
diff --git a/include/parmcb/detail/util.hpp b/include/parmcb/detail/util.hpp
index 67711f4..d1d5bec 100644
--- a/include/parmcb/detail/util.hpp
+++ b/include/parmcb/detail/util.hpp
@@ -49,7 +49,7 @@ namespace parmcb {
             typedef typename boost::property_map<Graph, boost::vertex_index_t>::type VertexIndexMapType;
 
             std::vector<V> &values;
-            const VertexIndexMapType &index_map;
+            const VertexIndexMapType index_map;
 
             VertexIndexFunctor(std::vector<V> &values, const VertexIndexMapType &index_map) :
                     values(values), index_map(index_map) {
diff --git a/include/parmcb/sptrees.hpp b/include/parmcb/sptrees.hpp
index 788f7ea..0b98912 100644
--- a/include/parmcb/sptrees.hpp
+++ b/include/parmcb/sptrees.hpp
@@ -257,7 +257,7 @@ namespace parmcb {
         const std::size_t _id;
         const Graph &_g;
         const WeightMap &_weight_map;
-        const VertexIndexMapType &_index_map;
+        const VertexIndexMapType _index_map;
         const Vertex _source;
 
         /*
@@ -418,7 +418,7 @@ namespace parmcb {
         typedef typename boost::property_traits<WeightMap>::value_type WeightType;
 
         SerializableMinOddCycle() :
-                exists(false) {
+                weight(WeightType()), exists(false) {
         }
 
         SerializableMinOddCycle(std::vector<Edge> edges, WeightType weight, bool exists) :
-- 
2.43.0


From 3eb32009f30d2accfd49e8e8514eb71f7d0c775a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:13 +0000
Subject: [PATCH 11/18] fix: MPI ranks must agree on the order of the signed
 edges

The slices and the hidden edge sets were derived from the iteration order of
std::set<Edge>, i.e. from heap addresses, which differ between ranks. Some
signed edges could be searched by no rank, or with the wrong hidden edges.
---
 include/parmcb/mpi/parmcb_sva_signed.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/parmcb/mpi/parmcb_sva_signed.hpp b/include/parmcb/mpi/parmcb_sva_signed.hpp
index 2f25179..5c68b86 100644
--- a/include/parmcb/mpi/parmcb_sva_signed.hpp
+++ b/include/parmcb/mpi/parmcb_sva_signed.hpp
@@ -6,6 +6,8 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <algorithm>
+#include <cmath>
 #include <cstddef>
 #include <functional>
 #include <iostream>
@@ -91,13 +93,16 @@ namespace parmcb {
                  * Heuristic in case number of signed edges is small compared to the number of vertices.
                  */
                 std::map<Edge, std::set<Edge>> hidden_edges_per_edge;
-                std::vector<Edge> signed_edges_as_vector;
+                // all ranks must agree on this order, the order of a set of edges depends on addresses
+                std::vector<Edge> signed_edges_as_vector(signed_edges.begin(), signed_edges.end());
+                std::sort(signed_edges_as_vector.begin(), signed_edges_as_vector.end(),
+                        [&forest_index](const Edge &e1, const Edge &e2) {
+                            return forest_index(e1) < forest_index(e2);
+                        });
                 std::set<Edge> tmp_signed_edges = signed_edges;
-                while (!tmp_signed_edges.empty()) {
-                    auto bit = tmp_signed_edges.begin();
-                    hidden_edges_per_edge.insert(std::make_pair(*bit, tmp_signed_edges));
-                    signed_edges_as_vector.push_back(*bit);
-                    tmp_signed_edges.erase(bit);
+                for (const auto &se : signed_edges_as_vector) {
+                    hidden_edges_per_edge.insert(std::make_pair(se, tmp_signed_edges));
+                    tmp_signed_edges.erase(se);
                 }
 
                 std::vector<Edge> local_signed_edges_as_vector;
-- 
2.43.0


From 38ea808c452a188a842a4eca97b05a2b05b9ea5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:13 +0000
Subject: [PATCH 12/18] fix: every MPI rank must reject an invalid graph

Only rank 0 returned, the other ranks waited for it inside a collective.
---
 src/mcb-dimacs-mpi.cpp | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/mcb-dimacs-mpi.cpp b/src/mcb-dimacs-mpi.cpp
index 5925589..c84149e 100644
--- a/src/mcb-dimacs-mpi.cpp
+++ b/src/mcb-dimacs-mpi.cpp
@@ -92,20 +92,21 @@ int main(int argc, char *argv[]) {
     parmcb::read_dimacs_from_file(fp, graph);
     fclose(fp);
 
-    if (world.rank() == 0) {
-        if (parmcb::has_loops(graph)) {
-            std::cerr << "Graph has loops, aborting.." << std::endl;
-            return EXIT_FAILURE;
-        }
-        if (parmcb::has_multiple_edges(graph)) {
-            std::cerr << "Graph has multiple edges, aborting.." << std::endl;
-            return EXIT_FAILURE;
-        }
-        if (parmcb::has_non_positive_weights(graph, get(boost::edge_weight, graph))) {
-            std::cerr << "Graph has negative or zero weight edges, aborting.." << std::endl;
-            return EXIT_FAILURE;
-        }
+    // every rank has read the graph, and every rank must bail out
+    if (parmcb::has_loops(graph)) {
+        std::cerr << "Graph has loops, aborting.." << std::endl;
+        return EXIT_FAILURE;
+    }
+    if (parmcb::has_multiple_edges(graph)) {
+        std::cerr << "Graph has multiple edges, aborting.." << std::endl;
+        return EXIT_FAILURE;
+    }
+    if (parmcb::has_non_positive_weights(graph, get(boost::edge_weight, graph))) {
+        std::cerr << "Graph has negative or zero weight edges, aborting.." << std::endl;
+        return EXIT_FAILURE;
+    }
 
+    if (world.rank() == 0) {
         std::cout << "Graph has " << num_vertices(graph) << " vertices" << std::endl;
         std::cout << "Graph has " << num_edges(graph) << " edges" << std::endl;
         std::cout << std::flush;
-- 
2.43.0


From 7436affc2ca500de392782ced62db4f53c83efd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:13 +0000
Subject: [PATCH 13/18] fix: set_global_tbb_concurrency must outlive the call

The limit was released when the local control object went out of scope.
---
 include/parmcb/util.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/parmcb/util.hpp b/include/parmcb/util.hpp
index 8225f89..00686d0 100644
--- a/include/parmcb/util.hpp
+++ b/include/parmcb/util.hpp
@@ -9,6 +9,7 @@
 #include <vector>
 #include <set>
 #include <map>
+#include <memory>
 
 #include <boost/graph/graph_traits.hpp>
 #include <boost/graph/graph_concepts.hpp>
@@ -157,11 +158,17 @@ namespace parmcb {
     }
 
 #ifdef PARMCB_HAVE_TBB
-    void set_global_tbb_concurrency(const std::size_t hardware_concurrency_hint) {
+    inline void set_global_tbb_concurrency(const std::size_t hardware_concurrency_hint) {
+        // the limit is in force only while the control object is alive
 #if TBB_VERSION_MAJOR > 2020
-    	oneapi::tbb::global_control global_limit(oneapi::tbb::global_control::max_allowed_parallelism, hardware_concurrency_hint);
+        static std::unique_ptr<oneapi::tbb::global_control> global_limit;
+        global_limit.reset();
+        global_limit.reset(new oneapi::tbb::global_control(
+                oneapi::tbb::global_control::max_allowed_parallelism, hardware_concurrency_hint));
 #else
-    	tbb::task_scheduler_init init(hardware_concurrency_hint);
+        static std::unique_ptr<tbb::task_scheduler_init> init;
+        init.reset();
+        init.reset(new tbb::task_scheduler_init(hardware_concurrency_hint));
 #endif
     }
 #endif
-- 
2.43.0


From 647308f49094e373f06de2a0bab49431a5978706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:13 +0000
Subject: [PATCH 14/18] fix: --cores must not depend on --verbose

---
 src/approx-mcb-dimacs.cpp | 6 ++++--
 src/mcb-dimacs.cpp        | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/approx-mcb-dimacs.cpp b/src/approx-mcb-dimacs.cpp
index 34b6ab1..c4934ba 100644
--- a/src/approx-mcb-dimacs.cpp
+++ b/src/approx-mcb-dimacs.cpp
@@ -112,8 +112,10 @@ int main(int argc, char *argv[]) {
         if (cores == 0) {
             cores = boost::thread::hardware_concurrency();
         }
-        if (vm["verbose"].as<bool>() && vm["parallel"].as<bool>()) {
-            std::cout << "Using cores: " << cores << std::endl;
+        if (vm["parallel"].as<bool>()) {
+            if (vm["verbose"].as<bool>()) {
+                std::cout << "Using cores: " << cores << std::endl;
+            }
             parmcb::set_global_tbb_concurrency(cores);
         }
     }
diff --git a/src/mcb-dimacs.cpp b/src/mcb-dimacs.cpp
index f2df810..47f4ad5 100644
--- a/src/mcb-dimacs.cpp
+++ b/src/mcb-dimacs.cpp
@@ -101,8 +101,10 @@ int main(int argc, char *argv[]) {
         if (cores == 0) {
             cores = boost::thread::hardware_concurrency();
         }
-        if (vm["verbose"].as<bool>() && vm["parallel"].as<bool>()) {
-            std::cout << "Using cores: " << cores << std::endl;
+        if (vm["parallel"].as<bool>()) {
+            if (vm["verbose"].as<bool>()) {
+                std::cout << "Using cores: " << cores << std::endl;
+            }
             parmcb::set_global_tbb_concurrency(cores);
         }
     }
-- 
2.43.0


From 553d777c5f00fab6b86a972ee0aad9e4ea1b4b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:13 +0000
Subject: [PATCH 15/18] fix: operator<< defined in a header must be inline

---
 include/parmcb/detail/signed_dijkstra.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parmcb/detail/signed_dijkstra.hpp b/include/parmcb/detail/signed_dijkstra.hpp
index 6bf6180..99ef151 100644
--- a/include/parmcb/detail/signed_dijkstra.hpp
+++ b/include/parmcb/detail/signed_dijkstra.hpp
@@ -22,7 +22,7 @@
 
 namespace std {
 
-    std::ostream& operator <<(std::ostream &out, const std::pair<unsigned long int, bool> &v) {
+    inline std::ostream& operator <<(std::ostream &out, const std::pair<unsigned long int, bool> &v) {
         out << v.first << (v.second ? "+" : "-");
         return out;
     }
-- 
2.43.0


From a8b22857a3aedaa743f34dad9e673784f1a74343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:08 +0000
Subject: [PATCH 16/18] fix: mpi/sptrees.hpp must include what it specialises

---
 include/parmcb/mpi/sptrees.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/parmcb/mpi/sptrees.hpp b/include/parmcb/mpi/sptrees.hpp
index 96e85bf..5ed430a 100644
--- a/include/parmcb/mpi/sptrees.hpp
+++ b/include/parmcb/mpi/sptrees.hpp
@@ -6,6 +6,9 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <boost/mpi/datatype.hpp>
+#include <boost/mpi/operations.hpp>
+
 #include <parmcb/sptrees.hpp>
 
 namespace boost {
-- 
2.43.0


From 6ea05120e81eeef9e89a87a78bfcf7af8815c64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:08 +0000
Subject: [PATCH 17/18] fix: a single self-loop is not a multiple edge

---
 include/parmcb/util.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/parmcb/util.hpp b/include/parmcb/util.hpp
index 00686d0..da38841 100644
--- a/include/parmcb/util.hpp
+++ b/include/parmcb/util.hpp
@@ -45,16 +45,26 @@ namespace parmcb {
     template<class Graph>
     bool has_multiple_edges(const Graph &g) {
         typedef typename boost::graph_traits<Graph>::vertex_descriptor Vertex;
+        typedef typename boost::graph_traits<Graph>::edge_descriptor Edge;
 
         auto vRange = boost::vertices(g);
         for (auto vit = vRange.first; vit != vRange.second; ++vit) {
             auto v = *vit;
             std::set<Vertex> neighbors;
+            std::set<Edge> loops;
 
             auto eRange = boost::out_edges(v, g);
             for (auto eit = eRange.first; eit != eRange.second; ++eit) {
                 auto e = *eit;
                 auto u = boost::opposite(e, v, g);
+                if (u == v) {
+                    // an undirected self-loop appears twice among the out edges
+                    loops.insert(e);
+                    if (loops.size() > 1) {
+                        return true;
+                    }
+                    continue;
+                }
                 if (!neighbors.insert(u).second) {
                     return true;
                 }
-- 
2.43.0


From 702ace4aad03fa106f64bce9558e78192851c18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 18/18] fix: the gcd invariant check must not overflow a
 fixed-width type

---
 include/parmcb/fp.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/parmcb/fp.hpp b/include/parmcb/fp.hpp
index 3ef5f9a..bb2995b 100644
--- a/include/parmcb/fp.hpp
+++ b/include/parmcb/fp.hpp
@@ -9,6 +9,7 @@
 #include <cassert>
 #include <cmath>
 #include <cstddef>
+#include <limits>
 #include <stdexcept>
 
 namespace parmcb {
@@ -87,7 +88,8 @@ T fp<T>::ext_gcd(T &a, T &b, T &x, T &y) {
     }
 
 #ifdef PARMCB_INVARIANTS_CHECK
-    assert(_a[1 - i] == a * x + b * y);
+    // the products may overflow a fixed-width T although the sum does not
+    assert(std::numeric_limits<T>::is_bounded || _a[1 - i] == a * x + b * y);
 #endif
 
     return _a[1 - i];
-- 
2.43.0

