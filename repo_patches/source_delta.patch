From 7a89e47dd5360e8413e6c2876d96846b66d3004d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:20 +0000
Subject: [PATCH 001/116] fix: clear_attributes did not clear the attributes of
 an object

---
 higra/data_cache.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/higra/data_cache.py b/higra/data_cache.py
index dd726ab..cc0253c 100644
--- a/higra/data_cache.py
+++ b/higra/data_cache.py
@@ -67,6 +67,9 @@ class WeakKeyDictionary:
     def __delete__(self, obj):
         del self._data[id(obj)]
 
+    def __contains__(self, obj):
+        return id(obj) in self._data
+
     def setdefault(self, obj, default=None):
         """
         If obj is in the dictionary, return its value.
@@ -111,7 +114,7 @@ class DataCache:
 
     def clear_data(self, key):
         if key in self.__data:
-            del self.__data[key]
+            self.__data.__delete__(key)
 
     def clear_all_data(self):
         self.__data.clear()
@@ -223,12 +226,15 @@ def has_tag(key, tag):
 
 
 def clear_attributes(key, *attribute_name):
+    data = __get_attributes(key)
     if not attribute_name:
+        attribute_name = tuple(data.keys())
         hg.__higra_global_cache.clear_data(key)
-    else:
-        obj_cache = hg.__higra_global_cache.get_data(key)
-        for k in obj_cache:
-            del obj_cache[k]
+
+    for name in attribute_name:
+        data.pop(name, None)
+        if __support_dynamic_attributes(key):
+            key.__dict__.pop(name, None)
 
 
 def clear_all_attributes():
-- 
2.43.0


From 3525cbdc2f283d0eb7f1e9e0e22073a8c756fe9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:20 +0000
Subject: [PATCH 002/116] fix: auto_cache confused calls whose argument values
 are swapped

---
 higra/data_cache.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/higra/data_cache.py b/higra/data_cache.py
index cc0253c..62851b0 100644
--- a/higra/data_cache.py
+++ b/higra/data_cache.py
@@ -427,10 +427,9 @@ def __make_key(o):
         else:
             return 0x9e3775b2
     elif isinstance(o, dict):
-        # not ideal but we use sum to be commutative, i.e. robust to arbitrary ordering of dictionary elements
-        keys = sum([__make_key(k) for k in o.keys()])
-        values = sum([__make_key(v) for v in o.values()])
-        return __hash_combine(keys, values)
+        # not ideal but we use sum to be commutative, i.e. robust to arbitrary ordering of dictionary elements;
+        # keys and values are combined before the sum: {a: x, b: y} is different from {a: y, b: x}
+        return sum([__hash_combine(__make_key(k), __make_key(v)) for k, v in o.items()])
     elif __has_method(o, "__hash__"):
         try:
             return hash(o)
-- 
2.43.0


From 9720a5e0aeaaa8e8916c05a0ee89934261b52bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:20 +0000
Subject: [PATCH 003/116] fix: auto_cache returned the result computed for a
 dead object having the same id

---
 higra/data_cache.py | 78 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 75 insertions(+), 3 deletions(-)

diff --git a/higra/data_cache.py b/higra/data_cache.py
index 62851b0..fe833cc 100644
--- a/higra/data_cache.py
+++ b/higra/data_cache.py
@@ -443,6 +443,76 @@ def __make_hash(*args, **kwargs):
     return __hash_combine(__make_key(args), __make_key(kwargs))
 
 
+def __flatten_arguments(o, result):
+    """
+    Appends all the elements recursively contained in :attr:`o` to the list :attr:`result` (in an order which does not
+    depend of the order of the elements of the sets and dictionaries).
+
+    :param o: an object
+    :param result: a list
+    :return: nothing
+    """
+    if isinstance(o, dict):
+        for k, v in sorted(o.items(), key=lambda kv: __make_key(kv[0])):
+            __flatten_arguments(k, result)
+            __flatten_arguments(v, result)
+    elif isinstance(o, (set, tuple, list)):
+        result.append(len(o))
+        for e in (sorted(o, key=__make_key) if isinstance(o, set) else o):
+            __flatten_arguments(e, result)
+    else:
+        result.append(o)
+
+
+def __make_witness(kwargs):
+    """
+    A witness enables to check that two function calls having the same hash were indeed made with the same arguments:
+    contrary to hashes and object identifiers, a weak reference can not be mistaken with a reference to another
+    object.
+
+    :param kwargs: dictionary of arguments
+    :return: a list
+    """
+    elements = []
+    __flatten_arguments(kwargs, elements)
+
+    witness = []
+    for e in elements:
+        try:
+            witness.append((True, weakref.ref(e)))
+        except TypeError:
+            witness.append((False, e))
+    return witness
+
+
+def __check_witness(witness, kwargs):
+    """
+    Checks that the given witness was produced with the given arguments.
+
+    :param witness: result of :func:`__make_witness`
+    :param kwargs: dictionary of arguments
+    :return: True or False
+    """
+    elements = []
+    __flatten_arguments(kwargs, elements)
+
+    if len(elements) != len(witness):
+        return False
+
+    for (is_ref, w), e in zip(witness, elements):
+        w = w() if is_ref else w
+        if w is not e:
+            if type(w) is not type(e):
+                return False
+            try:
+                hash(e)  # elements which are not hashable are identified by their id
+                if not w == e:
+                    return False
+            except TypeError:
+                return False
+    return True
+
+
 def auto_cache(fun):
     """
     Function decorator that provides automatic caching of function results.
@@ -551,10 +621,12 @@ def auto_cache(fun):
 
             h = __make_hash(*args, **kwargs)
 
-            if force_recompute or h not in cache:
-                cache[h] = fun(*args, **kwargs)
+            if force_recompute or h not in cache or not __check_witness(cache[h][0], kwargs):
+                # function may modify its arguments dictionary
+                witness = __make_witness(kwargs)
+                cache[h] = witness, fun(*args, **kwargs)
 
-            return cache[h]
+            return cache[h][1]
         except TypeError as e:
             # cannot cache obj...
             return fun(*args, **kwargs)
-- 
2.43.0


From da1522933d94e584be6291947b8ce19ca3ff32ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:20 +0000
Subject: [PATCH 004/116] fix: attribute_frontier_strength modified the cached
 frontier length

---
 higra/attribute/tree_attributes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/higra/attribute/tree_attributes.py b/higra/attribute/tree_attributes.py
index ab5f56f..18debf6 100644
--- a/higra/attribute/tree_attributes.py
+++ b/higra/attribute/tree_attributes.py
@@ -138,7 +138,8 @@ def attribute_frontier_strength(tree, edge_weights, leaf_graph):
         edge_weights = hg.rag_accumulate_on_edges(leaf_graph, hg.Accumulators.sum, edge_weights=edge_weights)
 
     frontier_length = hg.attribute_frontier_length(tree, leaf_graph=leaf_graph)
-    frontier_strength = hg.attribute_frontier_length(tree, edge_weights, leaf_graph)
+    # copy: the frontier length is stored in the cache
+    frontier_strength = hg.attribute_frontier_length(tree, edge_weights, leaf_graph).copy()
     frontier_strength[tree.num_leaves():] = frontier_strength[tree.num_leaves():] / frontier_length[tree.num_leaves():]
     return frontier_strength
 
-- 
2.43.0


From d935d247b3d795154955a533ef1a5a86fd95035c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:20 +0000
Subject: [PATCH 005/116] fix: attribute_contour_strength modified the cached
 contour length

---
 higra/attribute/tree_attributes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/higra/attribute/tree_attributes.py b/higra/attribute/tree_attributes.py
index 18debf6..f65927a 100644
--- a/higra/attribute/tree_attributes.py
+++ b/higra/attribute/tree_attributes.py
@@ -210,6 +210,7 @@ def attribute_contour_strength(tree, edge_weights, vertex_perimeter=None, edge_l
 
     # perimeter of the root may be null
     if np.isclose(perimeter[-1], 0):
+        perimeter = perimeter.copy()  # the contour length is stored in the cache
         perimeter[-1] = 1
 
     if hg.CptRegionAdjacencyGraph.validate(leaf_graph):
-- 
2.43.0


From 63dd302821d9be0eba9a68e9d162c4a2bcfc736c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:20 +0000
Subject: [PATCH 006/116] fix: attribute_height with the current reference
 altitude did not follow its definition

---
 higra/attribute/tree_attributes.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/higra/attribute/tree_attributes.py b/higra/attribute/tree_attributes.py
index f65927a..9c2a121 100644
--- a/higra/attribute/tree_attributes.py
+++ b/higra/attribute/tree_attributes.py
@@ -526,16 +526,10 @@ def attribute_height(tree, altitudes, increasing_altitudes="auto", reference_alt
     inc = __process_param_increasing_altitudes(tree, altitudes, increasing_altitudes)
 
     if reference_altitude == "current":
-        if inc:
-            res = hg.accumulate_sequential(tree,
-                                           altitudes[:tree.num_leaves()],
-                                           hg.Accumulators.max)\
-                  - altitudes
-        else:
-            res = altitudes -\
-                  hg.accumulate_sequential(tree,
-                                           altitudes[:tree.num_leaves()],
-                                           hg.Accumulators.min)
+        # altitudes being monotone, the height is the range of the altitudes of the non leaf nodes in the sub tree
+        leaf_data = altitudes[tree.parents()[:tree.num_leaves()]]
+        res = hg.accumulate_and_max_sequential(tree, altitudes, leaf_data, hg.Accumulators.max) \
+              - hg.accumulate_and_min_sequential(tree, altitudes, leaf_data, hg.Accumulators.min)
     else:
         res = hg.cpp._attribute_height(tree, altitudes, inc)
 
-- 
2.43.0


From 033552716293d0cae067bee10447bf02baa2a197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:20 +0000
Subject: [PATCH 007/116] fix: attribute_tree_sampling_probability result could
 be shorter than the number of nodes

---
 higra/attribute/tree_attributes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/higra/attribute/tree_attributes.py b/higra/attribute/tree_attributes.py
index 9c2a121..13e8108 100644
--- a/higra/attribute/tree_attributes.py
+++ b/higra/attribute/tree_attributes.py
@@ -672,7 +672,9 @@ def attribute_tree_sampling_probability(tree, leaf_graph, leaf_graph_edge_weight
     if model == 'edge':
         lca_map = hg.attribute_lca_map(tree, leaf_graph=leaf_graph)
         leaf_graph_edge_weights = leaf_graph_edge_weights / np.sum(leaf_graph_edge_weights)
-        return hg.accumulate_at(lca_map, leaf_graph_edge_weights, hg.Accumulators.sum)
+        result = np.zeros((tree.num_vertices(),), dtype=np.float64)
+        np.add.at(result, lca_map, leaf_graph_edge_weights)
+        return result
     else:  # model = 'null'
         leaf_graph_vertex_weights = hg.accumulate_graph_edges(leaf_graph, leaf_graph_edge_weights, hg.Accumulators.sum)
         leaf_graph_vertex_weights = leaf_graph_vertex_weights / np.sum(leaf_graph_edge_weights)
-- 
2.43.0


From 1779ee0336c0aa3a0e352d2ef946a2a4c7550d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:21 +0000
Subject: [PATCH 008/116] fix: multivariate tree of shapes without immersion
 kept padded pixels

---
 higra/image/tree_of_shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/higra/image/tree_of_shapes.py b/higra/image/tree_of_shapes.py
index e6ab2cb..d3c395d 100644
--- a/higra/image/tree_of_shapes.py
+++ b/higra/image/tree_of_shapes.py
@@ -96,7 +96,7 @@ def component_tree_multivariate_tree_of_shapes_image2d(image, padding='mean', or
                 deleted[0::2, 0::2] = False
         else:
             if padding != "none":
-                deleted[1:-1, 1::-1] = False
+                deleted[1:-1, 1:-1] = False
 
         all_deleted = hg.accumulate_sequential(tree, deleted_vertices, hg.Accumulators.min)
         shape = (image.shape[0], image.shape[1])
-- 
2.43.0


From 8732cd550f7d05f4ea6c55d4bcd1fbdafd0832c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:21 +0000
Subject: [PATCH 009/116] fix: exterior_vertex was ignored by the 2d and 3d
 tree of shapes

---
 higra/image/tree_of_shapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/higra/image/tree_of_shapes.py b/higra/image/tree_of_shapes.py
index d3c395d..907a95c 100644
--- a/higra/image/tree_of_shapes.py
+++ b/higra/image/tree_of_shapes.py
@@ -27,7 +27,7 @@ def component_tree_tree_of_shapes_image2d(image, padding='mean', original_size=T
     """
 
     assert len(image.shape) == 2, "This tree of shapes implementation only supports 2d images."
-    return component_tree_tree_of_shapes_image(image, padding, original_size, immersion)
+    return component_tree_tree_of_shapes_image(image, padding, original_size, immersion, exterior_vertex)
 
 
 
@@ -131,7 +131,7 @@ def component_tree_tree_of_shapes_image3d(image, padding='mean', original_size=T
 
     assert len(image.shape) == 3, "This tree of shapes implementation only supports 3d images."
 
-    return component_tree_tree_of_shapes_image(image, padding, original_size, immersion)
+    return component_tree_tree_of_shapes_image(image, padding, original_size, immersion, exterior_vertex)
 
 def component_tree_tree_of_shapes_image(image, padding='mean', original_size=True, immersion=True, exterior_vertex=0):
     """
-- 
2.43.0


From 45ef385f690fd053738a263267039a026e3c76dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:21 +0000
Subject: [PATCH 010/116] fix: overflow in the mean padding value of the tree
 of shapes

---
 include/higra/image/tree_of_shapes.hpp | 88 ++++++--------------------
 1 file changed, 21 insertions(+), 67 deletions(-)

diff --git a/include/higra/image/tree_of_shapes.hpp b/include/higra/image/tree_of_shapes.hpp
index 3d4074d..df76810 100644
--- a/include/higra/image/tree_of_shapes.hpp
+++ b/include/higra/image/tree_of_shapes.hpp
@@ -385,87 +385,41 @@ namespace hg {
                 case tos_padding::zero:
                     pad_value = 0;
                     break;
-                case tos_padding::mean:
-                    // compute mean of image boundaries
-                    if (dim == 2){
+                case tos_padding::mean: {
+                    // compute mean of image boundaries: the sum may not be representable with value_type
+                    using sum_type = std::conditional_t<std::is_integral<value_type>::value, std::int64_t, double>;
+                    sum_type sum = 0;
+                    index_t num_elements = 0;
+                    if (dim == 2) {
                         size_t h = image.shape(0);
                         size_t w = image.shape(1);
-                        size_t num_elements = w;
-                        for(size_t x = 0; x < w; x++){
-                            pad_value += image(0, x);
-                        }
-                        if(h > 1){
-                            for(size_t x = 0; x < w; x++){
-                                pad_value += image(h - 1, x);
-                            }
-                            num_elements += w;
-                        }
-                        if(h > 2){
-                            for(size_t y = 1; y < h - 1; y++){
-                                pad_value += image(y, 0);
-                            }
-                            num_elements += (h - 2);
-                            if (w > 1){
-                                for(size_t y = 1; y < h - 1; y++){
-                                    pad_value += image(y, w - 1);
+                        for (size_t y = 0; y < h; y++) {
+                            for (size_t x = 0; x < w; x++) {
+                                if (y == 0 || y == h - 1 || x == 0 || x == w - 1) {
+                                    sum += image(y, x);
+                                    num_elements++;
                                 }
-                                num_elements += (h - 2);
                             }
                         }
-                        pad_value /= num_elements;
-                    }else if(dim == 3){
+                    } else if (dim == 3) {
                         size_t d = image.shape(0);
                         size_t h = image.shape(1);
                         size_t w = image.shape(2);
-                        size_t num_elements = w * h;
-                        for(size_t y = 0; y < h; y++){
-                            for(size_t x = 0; x < w; x++){
-                                pad_value += image(0, y, x);
-                            }
-                        }
-                        if(d > 1){
-                            for(size_t y = 0; y < h; y++){
-                                for(size_t x = 0; x < w; x++){
-                                    pad_value += image(d - 1, y, x);
-                                }
-                            }
-                            num_elements += w * h;
-                        }
-                        if(d > 2){
-                            for(size_t z = 1; z < d - 1; z++){
-                                for(size_t y = 0; y < h; y++){
-                                    pad_value += image(z, y, 0);
-                                }
-                            }
-                            num_elements += (d - 2) * h;
-                            if (w > 1){
-                                for(size_t z = 1; z < d - 1; z++){
-                                    for(size_t y = 0; y < h; y++){
-                                        pad_value += image(z, y, w - 1);
+                        for (size_t z = 0; z < d; z++) {
+                            for (size_t y = 0; y < h; y++) {
+                                for (size_t x = 0; x < w; x++) {
+                                    if (z == 0 || z == d - 1 || y == 0 || y == h - 1 || x == 0 || x == w - 1) {
+                                        sum += image(z, y, x);
+                                        num_elements++;
                                     }
                                 }
-                                num_elements += (d - 2) * h;
-                            }
-                            for(size_t z = 1; z < d - 1; z++){
-                                for(size_t x = 1; x < w - 1; x++){
-                                    pad_value += image(z, 0, x);
-                                }
-                            }
-                            num_elements += (d - 2) * (w - 2);
-                            if (h > 1){
-                                for(size_t z = 1; z < d - 1; z++){
-                                    for(size_t x = 1; x < w - 1; x++){
-                                        pad_value += image(z, h - 1, x);
-                                    }
-                                }
-                                num_elements += (d - 2) * (w - 2);
                             }
                         }
-                        pad_value /= num_elements;
-                    }else{
+                    } else {
                         throw std::runtime_error("Unsupported dimension");
                     }
-
+                    pad_value = (value_type) (sum / num_elements);
+                }
                     break;
                 case tos_padding::none:
                     throw std::runtime_error("Padding value requested for no padding.");
-- 
2.43.0


From 918269b7e64948405ad41bf518e60274565156ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:21 +0000
Subject: [PATCH 011/116] fix: bipartite_graph_matching with null, negative or
 list weights

---
 higra/algo/bipartite_graph.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/higra/algo/bipartite_graph.py b/higra/algo/bipartite_graph.py
index cdb90ea..3e96200 100644
--- a/higra/algo/bipartite_graph.py
+++ b/higra/algo/bipartite_graph.py
@@ -136,6 +136,8 @@ def bipartite_graph_matching(graph, edge_weights):
         except Exception as e:
             raise TypeError("graph must be an undirected graph or a tuple (sources, targets, num_vertices)", e)
 
+    edge_weights = np.asarray(edge_weights)
+
     if len(edge_weights) != num_edges:
         raise ValueError("edge_weights must have the same length as the number of edges of the graph")
 
@@ -151,15 +153,21 @@ def bipartite_graph_matching(graph, edge_weights):
 
     edge_weights = hg.cast_to_dtype(edge_weights, np.int64)
 
-    very_large_weight = np.max(edge_weights) * 1000
+    # sizes of left and right sets
+    rhs_size = np.count_nonzero(coloring)
+    lhs_size = num_vertices - rhs_size
+
+    # the cardinality of the result does not depend of the weights: they can be translated such that the smallest one is 0
+    min_edge_weight = int(np.min(edge_weights))
+    max_edge_weight = int(np.max(edge_weights)) - min_edge_weight
+
+    # must be larger than the weight of any matching to ensure that the result is of maximum cardinality
+    very_large_weight = max_edge_weight * min(lhs_size, rhs_size) + 1
     # check that very_large_weight is not too large
     if very_large_weight > 2 ** 60 - 1:
         raise ValueError("edge weights are too large")
 
-
-    # sizes of left and right sets
-    rhs_size = np.count_nonzero(coloring)
-    lhs_size = num_vertices - rhs_size
+    edge_weights = edge_weights - min_edge_weight
 
     # augmented graph sizes to ensure the existence of a perfect matching
     # each lhs (resp rhs) vertex is duplicated in the rhs (reps lhs) part
-- 
2.43.0


From 2a30436cb773bdc7dc067f634615c16acdf2bde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:21 +0000
Subject: [PATCH 012/116] fix: filter_non_relevant_node_from_tree modified the
 given altitudes

---
 higra/algo/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/higra/algo/tree.py b/higra/algo/tree.py
index 78dbb16..5e34af7 100644
--- a/higra/algo/tree.py
+++ b/higra/algo/tree.py
@@ -214,7 +214,7 @@ def filter_non_relevant_node_from_tree(tree, altitudes, non_relevant_functor, le
     mst = hg.CptBinaryHierarchy.get_mst(tree)
     deleted_frontier_nodes = non_relevant_functor(tree, altitudes)
 
-    mst_edge_weights = altitudes[tree.num_leaves():]
+    mst_edge_weights = altitudes[tree.num_leaves():].copy()
     mst_edge_weights[deleted_frontier_nodes[tree.num_leaves():]] = 0
     tree, altitudes = hg.bpt_canonical(mst, mst_edge_weights)
 
-- 
2.43.0


From 663d36d92a0da21be4d55023af1f25ef7e8eb35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:21 +0000
Subject: [PATCH 013/116] fix: supervertices_hierarchy never ended when the
 altitude of the root is 0

---
 include/higra/algo/tree.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/higra/algo/tree.hpp b/include/higra/algo/tree.hpp
index 5f26db4..7b28dea 100644
--- a/include/higra/algo/tree.hpp
+++ b/include/higra/algo/tree.hpp
@@ -176,6 +176,9 @@ namespace hg {
             // move up until we find the top node of the supervertex of an already labeled node is found
             do {
                 stack.push(e);
+                if (e == root(tree)) { // the whole tree is a single supervertex
+                    break;
+                }
                 e = parent(e, tree);
                 if (new_order(e) != invalid_index) {
                     lbl = new_order(e);
-- 
2.43.0


From 58a237175914a520b26063a01ce738ea30154a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:21 +0000
Subject: [PATCH 014/116] fix: pickling of graphs with removed edges

---
 higra/structure/undirected_graph.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/higra/structure/undirected_graph.py b/higra/structure/undirected_graph.py
index 5cf8fd0..7118c6a 100644
--- a/higra/structure/undirected_graph.py
+++ b/higra/structure/undirected_graph.py
@@ -9,11 +9,16 @@
 ############################################################################
 
 import higra as hg
+import numpy as np
 
 
 def __reduce_ctr(num_vertices, sources, targets):
     graph = hg.UndirectedGraph(num_vertices)
-    graph.add_edges(sources, targets)
+    # removed edges are kept as invalid edges (-1, -1) in the edge list: they must be removed again
+    removed_edges, = np.nonzero(sources < 0)
+    graph.add_edges(np.maximum(sources, 0), np.maximum(targets, 0))
+    for e in removed_edges:
+        graph.remove_edge(e)
     return graph
 
 
-- 
2.43.0


From b4d04c17208b071c774a7bfccc709274812657ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:21 +0000
Subject: [PATCH 015/116] fix: pickling a tree lost its category

---
 higra/structure/tree_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/higra/structure/tree_graph.py b/higra/structure/tree_graph.py
index fadae97..11cd13f 100644
--- a/higra/structure/tree_graph.py
+++ b/higra/structure/tree_graph.py
@@ -85,7 +85,7 @@ def __num_children(self, vertex=None):
 
 @hg.extend_class(hg.Tree, method_name="__reduce__")
 def ____reduce__(self):
-    return self.__class__, (self.parents(),), self.__dict__
+    return self.__class__, (self.parents(), self.category()), self.__dict__
 
 
 @hg.extend_class(hg.Tree, method_name="lowest_common_ancestor_preprocess")
-- 
2.43.0


From d8929ba8e25aad71275c58ce0aff361160238b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:21 +0000
Subject: [PATCH 016/116] fix: removing or setting an already removed edge
 corrupted memory

---
 include/higra/structure/undirected_graph.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/higra/structure/undirected_graph.hpp b/include/higra/structure/undirected_graph.hpp
index 512be0a..5fa488b 100644
--- a/include/higra/structure/undirected_graph.hpp
+++ b/include/higra/structure/undirected_graph.hpp
@@ -162,6 +162,9 @@ namespace hg {
             void remove_edge(edge_index_t ei) {
                 auto &source = edges[ei].source;
                 auto &target = edges[ei].target;
+                if (source == invalid_index) { // already removed
+                    return;
+                }
                 remove_from_container(out_edges[source], ei);
                 if (source != target)
                     remove_from_container(out_edges[target], ei);
-- 
2.43.0


From f944b2fa4713c0ef378d99432554d21f9ea564f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:21 +0000
Subject: [PATCH 017/116] fix: tree constructor wrote out of bounds with out of
 range parents

---
 include/higra/structure/tree_graph.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/higra/structure/tree_graph.hpp b/include/higra/structure/tree_graph.hpp
index 5b7e0d1..945bab7 100644
--- a/include/higra/structure/tree_graph.hpp
+++ b/include/higra/structure/tree_graph.hpp
@@ -271,6 +271,7 @@ namespace hg {
                     vertex_descriptor parent_v = _parents(v);
                     hg_assert(parent_v != v, "several root nodes detected");
                     hg_assert(parent_v > v, "nodes are not in a topological order");
+                    hg_assert(parent_v <= _root, "the parent of a node is not a node of the tree");
                     num_children(parent_v)++;
                 }
 
-- 
2.43.0


From ac18c0df986a90b13b8114d3bf41edd47d2c1f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:21 +0000
Subject: [PATCH 018/116] fix: sources and targets arrays referred to freed
 memory after a graph modification

---
 higra/structure/py_undirected_graph.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/higra/structure/py_undirected_graph.cpp b/higra/structure/py_undirected_graph.cpp
index b78a9fc..f5c51c6 100644
--- a/higra/structure/py_undirected_graph.cpp
+++ b/higra/structure/py_undirected_graph.cpp
@@ -60,8 +60,14 @@ namespace py_undirected_graph {
         add_edge_list_graph_concept<graph_t, decltype(c)>(c);
         add_edge_index_graph_concept<graph_t, decltype(c)>(c);
 
-        c.def("_sources", [](const graph_t &g) { return hg::sources(g); }, py::keep_alive<0, 1>());
-        c.def("_targets", [](const graph_t &g) { return hg::targets(g); }, py::keep_alive<0, 1>());
+        c.def("_sources", [](const graph_t &g) {
+            hg::array_1d<hg::index_t> res = hg::sources(g);
+            return res;
+        });
+        c.def("_targets", [](const graph_t &g) {
+            hg::array_1d<hg::index_t> res = hg::targets(g);
+            return res;
+        });
 
         c.def("add_edge", [](graph_t &g,
                              const vertex_t source,
-- 
2.43.0


From 481518194565440c7323f5116fbba452458ab2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:21 +0000
Subject: [PATCH 019/116] fix: graph iterators did not keep the graph alive

---
 higra/structure/py_common_graph.hpp | 10 +++++-----
 higra/structure/py_tree_graph.cpp   | 12 ++++++------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/higra/structure/py_common_graph.hpp b/higra/structure/py_common_graph.hpp
index e136f35..3b613a6 100644
--- a/higra/structure/py_common_graph.hpp
+++ b/higra/structure/py_common_graph.hpp
@@ -69,7 +69,7 @@ namespace py_common_graph {
                   auto it2 = out_edge_iterator(it.second, cpp_edge_2_python<edge_t>);
                   return pybind11::make_iterator(it1, it2);
 
-              },
+              }, pybind11::keep_alive<0, 1>(),
               "Iterator over all out edges from 'vertex'. An out edge is a tuple '(vertex, adjacent_vertex)'.",
               pybind11::arg("vertex"));
 
@@ -136,7 +136,7 @@ namespace py_common_graph {
                   auto it2 = in_edge_iterator(it.second, cpp_edge_2_python<edge_t>);
                   return pybind11::make_iterator(it1, it2);
 
-              },
+              }, pybind11::keep_alive<0, 1>(),
               "Iterator over all in edges from 'vertex'. An in edge is a tuple '(adjacent_vertex, vertex)'.",
               pybind11::arg("vertex"));
 
@@ -170,7 +170,7 @@ namespace py_common_graph {
                   hg_assert_vertex_index(g, v);
                   auto it = hg::adjacent_vertices(v, g);
                   return pybind11::make_iterator(it.first, it.second);
-              },
+              }, pybind11::keep_alive<0, 1>(),
               "Iterator over all vertices adjacent to the given vertex.",
               pybind11::arg("vertex"));
     }
@@ -181,7 +181,7 @@ namespace py_common_graph {
         c.def("vertices", [](graph_t &g) {
                   auto it = hg::vertices(g);
                   return pybind11::make_iterator(it.first, it.second);
-              },
+              }, pybind11::keep_alive<0, 1>(),
               "Iterator over all vertices of the graph.");
 
         c.def("num_vertices", [](graph_t &g) { return hg::num_vertices(g); },
@@ -202,7 +202,7 @@ namespace py_common_graph {
                   auto it1 = edge_iterator(it.first, cpp_edge_2_python<edge_t>);
                   auto it2 = edge_iterator(it.second, cpp_edge_2_python<edge_t>);
                   return pybind11::make_iterator(it1, it2);
-              },
+              }, pybind11::keep_alive<0, 1>(),
               "Iterator over all edges of the graph.");
 
         c.def("num_edges", [](graph_t &g) { return hg::num_edges(g); },
diff --git a/higra/structure/py_tree_graph.cpp b/higra/structure/py_tree_graph.cpp
index 4f08859..b693c4f 100644
--- a/higra/structure/py_tree_graph.cpp
+++ b/higra/structure/py_tree_graph.cpp
@@ -224,7 +224,7 @@ namespace py_tree_graph {
                   auto it2 = out_edge_iterator(it.second, cpp_edge_2_python<edge_t>);
                   return pybind11::make_iterator(it1, it2);
 
-              },
+              }, pybind11::keep_alive<0, 1>(),
               "Iterator over all out edges from 'vertex'. An out edge is a tuple '(vertex, adjacent_vertex)'.",
               pybind11::arg("vertex"));
 
@@ -256,7 +256,7 @@ namespace py_tree_graph {
                   auto it2 = in_edge_iterator(it.second, cpp_edge_2_python<edge_t>);
                   return pybind11::make_iterator(it1, it2);
 
-              },
+              }, pybind11::keep_alive<0, 1>(),
               "Iterator over all in edges from 'vertex'. An in edge is a tuple '(adjacent_vertex, vertex)'.",
               pybind11::arg("vertex"));
 
@@ -291,7 +291,7 @@ namespace py_tree_graph {
                   hg_assert_vertex_index(g, v);
                   auto it = hg::adjacent_vertices(v, g);
                   return pybind11::make_iterator(it.first, it.second);
-              },
+              }, pybind11::keep_alive<0, 1>(),
               "Iterator over all vertices adjacent to the given vertex.",
               pybind11::arg("vertex"));
 
@@ -397,7 +397,7 @@ namespace py_tree_graph {
               [](const graph_t &tree) {
                   auto range = hg::leaves_iterator(tree);
                   return py::make_iterator(range.begin(), range.end());
-              }, "Returns an iterator on leaves of the tree.");
+              }, pybind11::keep_alive<0, 1>(), "Returns an iterator on leaves of the tree.");
 
         c.def("leaves_to_root_iterator",
               [](const graph_t &tree, bool includeLeaves, bool includeRoot) {
@@ -406,7 +406,7 @@ namespace py_tree_graph {
                                                                            : hg::leaves_it::exclude,
                                                            (includeRoot) ? hg::root_it::include : hg::root_it::exclude);
                   return py::make_iterator(range.begin(), range.end());
-              }, "Returns an iterator on the node indices going from the leaves to the root of the tree.",
+              }, pybind11::keep_alive<0, 1>(), "Returns an iterator on the node indices going from the leaves to the root of the tree.",
               py::arg("include_leaves") = true,
               py::arg("include_root") = true);
 
@@ -417,7 +417,7 @@ namespace py_tree_graph {
                                                                        : hg::leaves_it::exclude,
                                                        (includeRoot) ? hg::root_it::include : hg::root_it::exclude);
                   return py::make_iterator(range.begin(), range.end());
-              }, "Returns an iterator on the node indices going from the root to the leaves of the tree.",
+              }, pybind11::keep_alive<0, 1>(), "Returns an iterator on the node indices going from the root to the leaves of the tree.",
               py::arg("include_leaves") = true,
               py::arg("include_root") = true);
 
-- 
2.43.0


From e3ef86a03e2abe8cf62ed185a8d8a323729d01a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:21 +0000
Subject: [PATCH 020/116] fix: contour iterators and elements did not keep the
 contour alive, unchecked indices

---
 higra/image/py_contour_2d.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/higra/image/py_contour_2d.cpp b/higra/image/py_contour_2d.cpp
index 975a7b7..689a1c1 100644
--- a/higra/image/py_contour_2d.cpp
+++ b/higra/image/py_contour_2d.cpp
@@ -22,6 +22,12 @@ namespace py_contour_2d {
     namespace py = pybind11;
 
 
+    inline void check_index(index_t i, size_t size) {
+        if (i < 0 || i >= (index_t) size) {
+            throw py::index_error("Index out of range.");
+        }
+    }
+
     void py_init_contour_segment_2d(pybind11::module &m) {
 
         using class_t = contour_segment_2d;
@@ -41,10 +47,11 @@ namespace py_contour_2d {
                           std::pair<index_t, std::pair<double, double> > >;
                   return py::make_iterator(transform_it_t(c.begin(), transform), transform_it_t(c.end(), transform));
                   //return py::make_iterator(c.begin(), c.end());
-              },
+              }, py::keep_alive<0, 1>(),
               "Iterator on the contour elements of the contour segment. ");
         c.def("__len__", &class_t::size, "Number of elements in the contour segment.");
         c.def("__getitem__", [](class_t &c, index_t i) {
+            check_index(i, c.size());
             // ::TODO:: remove this stupid thing when xtensor python supports it
             const auto &e = c[i];
             return std::make_pair(e.first, std::make_pair(e.second[0], e.second[1]));
@@ -70,11 +77,15 @@ namespace py_contour_2d {
                                      "contour segments s1 and s2, "
                                      "the last element of s1 is equal to the first element of s2.");
         c.def("__iter__", [](class_t &c) {
-                  return py::make_iterator(c.begin(), c.end());
-              },
+                  // a contour segment refers to the polyline it belongs to
+                  return py::make_iterator(c.begin(), c.end(), py::keep_alive<0, 1>());
+              }, py::keep_alive<0, 1>(),
               "Iterator on the contour segments of the polyline contour. ");
         c.def("__len__", &class_t::size, "Number of segments in the polyline contour.");
-        c.def("__getitem__", [](class_t &c, index_t i) { return c[i]; });
+        c.def("__getitem__", [](class_t &c, index_t i) {
+            check_index(i, c.size());
+            return c[i];
+        }, py::keep_alive<0, 1>());
         c.def("subdivide", &class_t::subdivide,
               "Subdivide the line such that the distance between the line\n"
               "joining the extremities of the contour segment and each of its elements is lower than the threshold (\n"
@@ -96,10 +107,13 @@ namespace py_contour_2d {
                                                      "Each polyline contour represent a continuous piece of contour between two regions.");
         c.def("__iter__", [](class_t &c) {
                   return py::make_iterator(c.begin(), c.end());
-              },
+              }, py::keep_alive<0, 1>(),
               "Iterator on the polyline contours. ");
         c.def("__len__", &class_t::size, "Number of polyline contours.");
-        c.def("__getitem__", [](class_t &c, index_t i) { return c[i]; });
+        c.def("__getitem__", [](class_t &c, index_t i) {
+            check_index(i, c.size());
+            return c[i];
+        });
         c.def("subdivide", &class_t::subdivide,
               "Subdivide each segment of the contour such that: "
               "For each segment, the distance between the line joining the extremities "
-- 
2.43.0


From f31ea6116627523f574e37526736723be0799b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:21 +0000
Subject: [PATCH 021/116] fix: subdividing a polyline twice truncated it

---
 include/higra/image/contour_2d.hpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/include/higra/image/contour_2d.hpp b/include/higra/image/contour_2d.hpp
index f8cf41e..bbef73c 100644
--- a/include/higra/image/contour_2d.hpp
+++ b/include/higra/image/contour_2d.hpp
@@ -261,19 +261,18 @@ namespace hg {
                             stack.push({max_distance_element, last_element});
                         }
                     }
+                }
 
-                    // final subdivision
-                    m_control_points.clear();
+                // final subdivision
+                m_control_points.clear();
 
-                    for (index_t i = 0; i < (index_t) m_contour_elements.size(); i++) {
-                        if (is_subdivision_element[i]) {
-                            m_control_points.push_back(i);
-                        }
+                for (index_t i = 0; i < (index_t) m_contour_elements.size(); i++) {
+                    if (is_subdivision_element[i]) {
+                        m_control_points.push_back(i);
                     }
-                    if (m_control_points.size() == 1)
-                        m_control_points.push_back(0);
                 }
-
+                if (m_control_points.size() == 1)
+                    m_control_points.push_back(0);
             }
         };
 
-- 
2.43.0


From 9dfb2e9b5e8566494d540201846914faefb5f431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:30 +0000
Subject: [PATCH 022/116] fix: (de)linearize_vertex_weights failed when only
 the shape is given

---
 higra/hg_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/higra/hg_utils.py b/higra/hg_utils.py
index ae81cf6..071dc10 100644
--- a/higra/hg_utils.py
+++ b/higra/hg_utils.py
@@ -136,13 +136,13 @@ def linearize_vertex_weights(vertex_weights, graph=None, shape=None):
     else:
         shape_prefix_of_v_shape = False
 
-    if shape_prefix_of_v_shape:
-        return vertex_weights.reshape([graph.num_vertices()] + list(v_shape[len(shape):]))
-
     num_elements = 1
     for i in shape:
         num_elements *= i
 
+    if shape_prefix_of_v_shape:
+        return vertex_weights.reshape([num_elements] + list(v_shape[len(shape):]))
+
     if num_elements == vertex_weights.shape[0]:
         return vertex_weights
 
@@ -210,7 +210,7 @@ def delinearize_vertex_weights(vertex_weights, graph=None, shape=None):
 
     if v_shape[0] != num_elements:
         raise ValueError("Vertex weights shape " + str(v_shape) +
-                         " is not compatible with graph size " + str(graph.num_vertices()) + ".")
+                         " is not compatible with shape " + str(shape) + ".")
 
     return vertex_weights.reshape(list(shape) + list(v_shape[1:]))
 
-- 
2.43.0


From 3480f6c325bd28ffbe6daa6e2a0a663e70541792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:12 +0000
Subject: [PATCH 023/116] fix: multidimensional parent arrays and mismatched
 find_region arguments corrupted memory

---
 include/higra/structure/tree_graph.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/higra/structure/tree_graph.hpp b/include/higra/structure/tree_graph.hpp
index 945bab7..115e381 100644
--- a/include/higra/structure/tree_graph.hpp
+++ b/include/higra/structure/tree_graph.hpp
@@ -111,7 +111,7 @@ namespace hg {
             template<typename T>
             tree(const xt::xexpression<T> &parents = xt::xarray<vertex_descriptor>({0}),
                  tree_category category = tree_category::partition_tree) :
-                    _parents(parents),
+                    _parents(_check_parents(parents.derived_cast())),
                     _children_computed(false),
                     _children(0),
                     _category(category) {
@@ -122,7 +122,7 @@ namespace hg {
             template<typename T>
             tree(xt::xexpression<T> &&parents = xt::xarray<vertex_descriptor>({0}),
                  tree_category category = tree_category::partition_tree) :
-                    _parents(std::move(parents.derived_cast())),
+                    _parents(std::move(_check_parents(parents.derived_cast()))),
                     _children_computed(false),
                     _children(0),
                     _category(category) {
@@ -254,6 +254,13 @@ namespace hg {
 
         private:
 
+            // must be checked before conversion to a 1d array
+            template<typename T>
+            static T &_check_parents(T &parents) {
+                hg_assert(parents.dimension() == 1, "parents must be a linear (1d) array");
+                return parents;
+            }
+
             void _init() {
                 if (_parents.size() == 0) {
                     _root = invalid_index;
@@ -682,6 +689,8 @@ namespace hg {
                      const typename T::value_type &lambda,
                      const T &altitudes,
                      const tree &tree) {
+        hg_assert_node_weights(tree, altitudes);
+        hg_assert_1d_array(altitudes);
         return tree.find_region(v, lambda, altitudes);
     }
 
@@ -700,6 +709,7 @@ namespace hg {
         hg_assert_1d_array(vertices);
         hg_assert_integral_value_type(vertices);
         hg_assert_1d_array(lambdas);
+        hg_assert_same_shape(vertices, lambdas);
 
         array_1d <index_t> result = array_1d<index_t>::from_shape({vertices.size()});
 
-- 
2.43.0


From 95b0a1d74c72ac591081b3b569eb3da0df1a0c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:05 +0000
Subject: [PATCH 024/116] fix: block range minimum query could return the
 excluded end of the range

---
 include/higra/structure/details/range_minimum_query.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/higra/structure/details/range_minimum_query.hpp b/include/higra/structure/details/range_minimum_query.hpp
index 2ae9ded..81dfd6a 100644
--- a/include/higra/structure/details/range_minimum_query.hpp
+++ b/include/higra/structure/details/range_minimum_query.hpp
@@ -234,9 +234,9 @@ namespace hg {
                     index_t ret = m_sparse_table.query(lb, std::min(m_num_blocks, rb + 1));
                     if (ret >= l && ret < r) return ret;
                 } else {
-                    if (m_block_minimum_prefix(r) >= l)
-                        return m_block_minimum_prefix(r);
-                    if (m_block_minimum_suffix(l) <= r)
+                    if (m_block_minimum_prefix(r - 1) >= l)
+                        return m_block_minimum_prefix(r - 1);
+                    if (m_block_minimum_suffix(l) < r)
                         return m_block_minimum_suffix(l);
                     return std::min_element(m_data + l, m_data + r) - m_data;
                 }
-- 
2.43.0


From 69b14990b04e593032b9eb0b2a25e61664d611e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:05 +0000
Subject: [PATCH 025/116] fix: lca of the edges of a graph larger than the tree
 read out of bounds

---
 higra/structure/py_lca_fast.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/higra/structure/py_lca_fast.cpp b/higra/structure/py_lca_fast.cpp
index 868c37f..793034f 100644
--- a/higra/structure/py_lca_fast.cpp
+++ b/higra/structure/py_lca_fast.cpp
@@ -142,7 +142,11 @@ namespace py_lca_fast {
               py::arg("v2"));
 
         c.def("lca",
-              [](const lca_t &l, const ugraph &g) { return l.lca(edge_iterator(g)); },
+              [](const lca_t &l, const ugraph &g) {
+                  hg_assert(num_vertices(g) <= (size_t) l.num_elements(),
+                            "The graph has more vertices than the tree.");
+                  return l.lca(edge_iterator(g));
+              },
               "Compute the LCA of every edge of the given graph.",
               py::arg("UndirectedGraph"));
 
-- 
2.43.0


From b84497006f16d0aef066691582d383ab22e09367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:03 +0000
Subject: [PATCH 026/116] fix: mean accumulator counted the elements of
 previously processed nodes

---
 include/higra/accumulator/accumulator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/higra/accumulator/accumulator.hpp b/include/higra/accumulator/accumulator.hpp
index 3e96597..98b3074 100644
--- a/include/higra/accumulator/accumulator.hpp
+++ b/include/higra/accumulator/accumulator.hpp
@@ -156,12 +156,14 @@ namespace hg {
             template<typename T = self_type, typename ...Args>
             typename std::enable_if_t<T::is_vectorial>
             initialize(Args &&...) {
+                m_counter = 0;
                 std::fill(m_storage_begin, m_storage_end, 0);
             }
 
             template<typename T = self_type, typename ...Args>
             typename std::enable_if_t<!T::is_vectorial>
             initialize(Args &&...) {
+                m_counter = 0;
                 *m_storage_begin = 0;
             }
 
-- 
2.43.0


From 7bf969fa7b83728b68c7148fda7ad477b024da35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:03 +0000
Subject: [PATCH 027/116] fix: scalar argmin and argmax accumulators ignored
 extreme values

---
 include/higra/accumulator/accumulator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/higra/accumulator/accumulator.hpp b/include/higra/accumulator/accumulator.hpp
index 98b3074..93c5f4c 100644
--- a/include/higra/accumulator/accumulator.hpp
+++ b/include/higra/accumulator/accumulator.hpp
@@ -318,7 +318,7 @@ namespace hg {
             std::enable_if_t<!T1::is_vectorial>
             accumulate(T value_begin, Args &&...) {
 
-                if (*value_begin < *m_temp.begin()) {
+                if (cur_index == 0 || *value_begin < *m_temp.begin()) {
                     *m_temp.begin() = *value_begin;
                     *m_storage_begin = (storage_value_type)cur_index;
                 }
@@ -402,7 +402,7 @@ namespace hg {
             std::enable_if_t<!T1::is_vectorial>
             accumulate(T value_begin, Args &&...) {
 
-                if (*value_begin > *m_temp.begin()) {
+                if (cur_index == 0 || *value_begin > *m_temp.begin()) {
                     *m_temp.begin() = *value_begin;
                     *m_storage_begin = (storage_value_type)cur_index;
                 }
-- 
2.43.0


From 919f57a1248f2f1fed7ffa0a04889e4d26e0614b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:03 +0000
Subject: [PATCH 028/116] fix: min and max accumulators ignored infinite values

---
 include/higra/accumulator/accumulator.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/higra/accumulator/accumulator.hpp b/include/higra/accumulator/accumulator.hpp
index 93c5f4c..ed02dfc 100644
--- a/include/higra/accumulator/accumulator.hpp
+++ b/include/higra/accumulator/accumulator.hpp
@@ -591,7 +591,8 @@ namespace hg {
 
         template <typename value_type>
         static value_type init_value(){
-            return (std::numeric_limits<value_type>::max)();
+            return std::numeric_limits<value_type>::has_infinity ?
+                   std::numeric_limits<value_type>::infinity() : (std::numeric_limits<value_type>::max)();
         }
 
         template <typename value_type>
@@ -619,7 +620,8 @@ namespace hg {
 
         template <typename value_type>
         static value_type init_value(){
-            return std::numeric_limits<value_type>::lowest();
+            return std::numeric_limits<value_type>::has_infinity ?
+                   -std::numeric_limits<value_type>::infinity() : std::numeric_limits<value_type>::lowest();
         }
 
         template <typename value_type>
-- 
2.43.0


From 23a14460c56d19495f9b4d959323bb7e96d69337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:03 +0000
Subject: [PATCH 029/116] fix: mean of graph accumulators was not normalized

---
 include/higra/accumulator/graph_accumulator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/higra/accumulator/graph_accumulator.hpp b/include/higra/accumulator/graph_accumulator.hpp
index ce7e431..93a27c2 100644
--- a/include/higra/accumulator/graph_accumulator.hpp
+++ b/include/higra/accumulator/graph_accumulator.hpp
@@ -49,6 +49,7 @@ namespace hg {
                     input_view.set_position(e);
                     acc.accumulate(input_view.begin());
                 }
+                acc.finalize();
             }
 
             return output;
@@ -84,6 +85,7 @@ namespace hg {
                     input_view.set_position(v);
                     acc.accumulate(input_view.begin());
                 }
+                acc.finalize();
             }
 
             return output;
-- 
2.43.0


From cfaa00b0eba96b402924a891da2e1ea4ecafbc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:03 +0000
Subject: [PATCH 030/116] fix: accumulate_at with empty, negative or
 multidimensional indices corrupted memory

---
 higra/accumulator/py_at_accumulator.cpp      | 1 +
 include/higra/accumulator/at_accumulator.hpp | 7 ++++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/higra/accumulator/py_at_accumulator.cpp b/higra/accumulator/py_at_accumulator.cpp
index 0dc3b22..c9ece16 100644
--- a/higra/accumulator/py_at_accumulator.cpp
+++ b/higra/accumulator/py_at_accumulator.cpp
@@ -31,6 +31,7 @@ namespace py_at_accumulator {
                   [](const pyarray<hg::index_t> &rag_map,
                      const pyarray<value_t> &weights,
                      hg::accumulators accumulator) {
+                      hg_assert_1d_array(rag_map);
                       return dispatch_accumulator(
                               [&rag_map, &weights](const auto &acc) {
                                   return hg::accumulate_at(rag_map, weights, acc);
diff --git a/include/higra/accumulator/at_accumulator.hpp b/include/higra/accumulator/at_accumulator.hpp
index c972a23..75df3a6 100644
--- a/include/higra/accumulator/at_accumulator.hpp
+++ b/include/higra/accumulator/at_accumulator.hpp
@@ -27,9 +27,10 @@ namespace hg {
                       const accumulator_t &accumulator) {
             HG_TRACE();
             auto &weights = xweights.derived_cast();
-            hg_assert(weights.shape()[0] == indices.size(), "Weights dimension does not match rag map dimension.");
+            hg_assert(weights.dimension() > 0 && weights.shape()[0] == indices.size(),
+                      "Weights dimension does not match rag map dimension.");
 
-            index_t size = xt::amax(indices)() + 1;
+            index_t size = (indices.size() == 0) ? 0 : (std::max)(xt::amax(indices)() + 1, (index_t) 0);
             auto data_shape = std::vector<size_t>(weights.shape().begin() + 1, weights.shape().end());
             auto output_shape = accumulator_t::get_output_shape(data_shape);
             output_shape.insert(output_shape.begin(), size);
@@ -50,7 +51,7 @@ namespace hg {
 
             index_t map_size = indices.size();
             for (index_t i = 0; i < map_size; ++i) {
-                if (indices.data()[i] != invalid_index) {
+                if (indices.data()[i] >= 0) {
                     input_view.set_position(i);
                     accs[indices.data()[i]].accumulate(input_view.begin());
                 }
-- 
2.43.0


From fdc5ad1d4245bcb5d44b7137678d8f9bcfd5e23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:03 +0000
Subject: [PATCH 031/116] fix: division by zero with empty multi-channel
 weights

---
 include/higra/structure/details/light_axis_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/higra/structure/details/light_axis_view.hpp b/include/higra/structure/details/light_axis_view.hpp
index c296d75..cd05020 100644
--- a/include/higra/structure/details/light_axis_view.hpp
+++ b/include/higra/structure/details/light_axis_view.hpp
@@ -39,7 +39,7 @@ namespace hg {
             template<typename T1 = self_type>
             light_axis_view(T &data, index_t position = 0, typename std::enable_if_t<T1::is_vectorial> * = 0) :
                     m_data(data),
-                    m_stride(data.size() / data.shape()[0]),
+                    m_stride((data.shape()[0] == 0) ? 0 : data.size() / data.shape()[0]),
                     m_position(position) {
 
             }
-- 
2.43.0


From 79aaa1bce9335527ef1242155153d4f097890f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:03 +0000
Subject: [PATCH 032/116] fix: accumulating on a tree with a single node
 accessed an empty vector

---
 include/higra/accumulator/tree_accumulator.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/higra/accumulator/tree_accumulator.hpp b/include/higra/accumulator/tree_accumulator.hpp
index c0fb2d0..4482be6 100644
--- a/include/higra/accumulator/tree_accumulator.hpp
+++ b/include/higra/accumulator/tree_accumulator.hpp
@@ -82,7 +82,9 @@ namespace hg {
                     input_view.set_position(i);
                     accs[p - numl].accumulate(input_view.begin());
                 }
-                accs.back().finalize();
+                if (!accs.empty()) {
+                    accs.back().finalize();
+                }
             }
 
             return output;
@@ -149,7 +151,9 @@ namespace hg {
                     input_view.set_position(i);
                     accs[p - numl].accumulate(input_view.begin());
                 }
-                accs.back().finalize();
+                if (!accs.empty()) {
+                    accs.back().finalize();
+                }
             }
 
             return output;
@@ -239,10 +243,12 @@ namespace hg {
                     accs[p - numl].accumulate(inout_view.begin());
                 }
 
-                accs.back().finalize();
-                input_view.set_position(root(tree));
-                output_view.set_position(root(tree));
-                output_view.combine(input_view, combine);
+                if (!accs.empty()) {
+                    accs.back().finalize();
+                    input_view.set_position(root(tree));
+                    output_view.set_position(root(tree));
+                    output_view.combine(input_view, combine);
+                }
             }
 
             return output;
-- 
2.43.0


From 6447815bec2f0357f92f304771cf57a97b8c88ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 033/116] fix: simplifying a tree with a single node read
 uninitialized memory

---
 include/higra/hierarchy/hierarchy_core.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/higra/hierarchy/hierarchy_core.hpp b/include/higra/hierarchy/hierarchy_core.hpp
index 35f44e8..738263a 100644
--- a/include/higra/hierarchy/hierarchy_core.hpp
+++ b/include/higra/hierarchy/hierarchy_core.hpp
@@ -168,6 +168,11 @@ namespace hg {
     auto simplify_tree(const tree &t, const criterion_t &criterion, bool process_leaves = false) {
         HG_TRACE();
 
+        // the root is always preserved
+        if (num_vertices(t) <= 1) {
+            array_1d<index_t> node_map = xt::arange<index_t>(num_vertices(t));
+            return make_remapped_tree(tree(parents(t), t.category()), std::move(node_map));
+        }
 
         // this case is significantly harder because a reordering of the nodes
         // may append if an internal node becomes a leaf
-- 
2.43.0


From f73a5db3b622c5d95623e44f6f115a8326fab1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 034/116] fix: ultrametric_open of a region adjacency graph or
 spanning tree was not defined on its edges

---
 higra/algo/graph_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/higra/algo/graph_core.py b/higra/algo/graph_core.py
index ae634dd..f908bb4 100644
--- a/higra/algo/graph_core.py
+++ b/higra/algo/graph_core.py
@@ -165,7 +165,7 @@ def ultrametric_open(graph, edge_weights):
     :return: edge weights corresponding to the subdominant ultrametric
     """
     tree, altitudes = hg.bpt_canonical(graph, edge_weights)
-    return hg.saliency(tree, altitudes)
+    return hg.saliency(tree, altitudes, graph, handle_rag=False)
 
 
 def minimum_spanning_tree(graph, edge_weights):
-- 
2.43.0


From d4af9f860258e492cad9d01305b8874f4d0c9908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 035/116] fix: bpt_canonical of a spanning tree was linked to
 wrong edges of the base graph

---
 higra/hierarchy/hierarchy_core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/higra/hierarchy/hierarchy_core.py b/higra/hierarchy/hierarchy_core.py
index 64a4fa7..53a0384 100644
--- a/higra/hierarchy/hierarchy_core.py
+++ b/higra/hierarchy/hierarchy_core.py
@@ -177,13 +177,14 @@ def bpt_canonical(graph, edge_weights=None, sorted_edge_indices=None, return_alt
         # if the base graph is itself a mst, we take the base graph of this mst as the new base graph
         if hg.CptMinimumSpanningTree.validate(graph):
             leaf_graph = hg.CptMinimumSpanningTree.construct(graph)["base_graph"]
+            mst_edge_map = hg.CptMinimumSpanningTree.get_edge_map(graph)[mst_edge_map]
         else:
             leaf_graph = graph
 
         hg.CptHierarchy.link(tree, leaf_graph)
 
     if compute_mst and input_is_graph_object:
-        mst = hg.subgraph(graph, mst_edge_map)
+        mst = hg.subgraph(leaf_graph, mst_edge_map)
         hg.CptMinimumSpanningTree.link(mst, leaf_graph, mst_edge_map)
     else:
         mst = None
-- 
2.43.0


From 15986f511b2f79d6af0157e6dc861c41e1823209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 036/116] fix: copying a graph with removed edges to another
 graph type wrote out of bounds

---
 include/higra/graph.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/higra/graph.hpp b/include/higra/graph.hpp
index af5cc81..059c932 100644
--- a/include/higra/graph.hpp
+++ b/include/higra/graph.hpp
@@ -377,7 +377,12 @@ namespace hg {
         output_graph_type g(num_vertices(graph), gse.estimate_edge_number(graph), gse.estimate_number_of_edge_per_vertex(graph));
         auto edge_it = edges(graph);
         for (auto eb = edge_it.first; eb != edge_it.second; eb++) {
-            g.add_edge(source(*eb, graph), target(*eb, graph));
+            if (source(*eb, graph) != invalid_index) {
+                g.add_edge(source(*eb, graph), target(*eb, graph));
+            } else { // removed edge: preserve the index of the other edges
+                g.add_edge(0, 0);
+                g.remove_edge(g.num_edges() - 1);
+            }
         }
         return g;
     };
-- 
2.43.0


From c540973bc03409a831901f017a27489ceb066e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 037/116] fix: binary partition trees of graphs with parallel
 edges or self-loops

---
 .../higra/hierarchy/binary_partition_tree.hpp | 128 +++++++++++++++---
 1 file changed, 112 insertions(+), 16 deletions(-)

diff --git a/include/higra/hierarchy/binary_partition_tree.hpp b/include/higra/hierarchy/binary_partition_tree.hpp
index deadfef..f5e0061 100644
--- a/include/higra/hierarchy/binary_partition_tree.hpp
+++ b/include/higra/hierarchy/binary_partition_tree.hpp
@@ -42,6 +42,29 @@ namespace hg {
 
         };
 
+        /**
+         * Calls f(e1, e2) for every edge e2 parallel to an edge e1, with e1 a unique representative of the
+         * edges linking the extremities of e2 (self-loops are ignored).
+         */
+        template<typename graph_t, typename F>
+        void for_each_parallel_edge(const graph_t &graph, const F &f) {
+            array_1d<index_t> last_visitor({num_vertices(graph)}, invalid_index);
+            array_1d<index_t> representative({num_vertices(graph)}, invalid_index);
+            for (auto v: vertex_iterator(graph)) {
+                for (auto e: out_edge_iterator(v, graph)) {
+                    auto n = other_vertex(e, v, graph);
+                    if (n > v) {
+                        if (last_visitor(n) != v) {
+                            last_visitor(n) = v;
+                            representative(n) = index(e, graph);
+                        } else {
+                            f(representative(n), index(e, graph));
+                        }
+                    }
+                }
+            }
+        }
+
         /**
          * This structure is provided by the binary partition algorithm when two nodes are merged in order to
          * compute the edge weight between the newly created node and one of its neighbouring node.
@@ -215,6 +238,21 @@ namespace hg {
                     m_weights(weights) {
             }
 
+            /**
+             * Distances between the vertices of the graph (parallel edges are merged)
+             */
+            template<typename graph_t>
+            auto get_weights(const graph_t &graph) {
+                hg_assert_edge_weights(graph, m_weights);
+                for_each_parallel_edge(graph, [this](index_t e1, index_t e2) {
+                    m_weights(e1) = (std::max)(m_weights(e1), m_weights(e2));
+                });
+                for_each_parallel_edge(graph, [this](index_t e1, index_t e2) {
+                    m_weights(e2) = m_weights(e1);
+                });
+                return m_weights;
+            }
+
             template<typename graph_t, typename neighbours_t>
             void operator()(const graph_t &g,
                             index_t fusion_edge_index,
@@ -258,6 +296,24 @@ namespace hg {
                 hg_assert_same_shape(m_values, m_weights);
             }
 
+            /**
+             * Distances between the vertices of the graph (parallel edges are merged)
+             */
+            template<typename graph_t>
+            auto get_weights(const graph_t &graph) {
+                hg_assert_edge_weights(graph, m_values);
+                for_each_parallel_edge(graph, [this](index_t e1, index_t e2) {
+                    value_type new_weight = m_weights(e1) + m_weights(e2);
+                    m_values(e1) = (m_values(e1) * m_weights(e1) + m_values(e2) * m_weights(e2)) / new_weight;
+                    m_weights(e1) = new_weight;
+                });
+                for_each_parallel_edge(graph, [this](index_t e1, index_t e2) {
+                    m_values(e2) = m_values(e1);
+                    m_weights(e2) = m_weights(e1);
+                });
+                return m_values;
+            }
+
             template<typename graph_t, typename neighbours_t>
             void operator()(const graph_t &g,
                             index_t fusion_edge_index,
@@ -316,6 +372,26 @@ namespace hg {
                 m_values = m_weights * values;
             }
 
+            /**
+             * Distances between the vertices of the graph (parallel edges are merged)
+             */
+            template<typename graph_t, typename X>
+            auto get_weights(const graph_t &graph, const xt::xexpression<X> &xvalues) {
+                hg_assert_edge_weights(graph, m_values);
+                array_1d<value_type> weights = xvalues.derived_cast();
+                for_each_parallel_edge(graph, [this, &weights](index_t e1, index_t e2) {
+                    m_values(e1) += m_values(e2);
+                    m_weights(e1) += m_weights(e2);
+                    weights(e1) = m_values(e1) / m_weights(e1);
+                });
+                for_each_parallel_edge(graph, [this, &weights](index_t e1, index_t e2) {
+                    m_values(e2) = m_values(e1);
+                    m_weights(e2) = m_weights(e1);
+                    weights(e2) = weights(e1);
+                });
+                return weights;
+            }
+
             template<typename graph_t, typename neighbours_t>
             void operator()(const graph_t &g,
                             index_t fusion_edge_index,
@@ -380,6 +456,8 @@ namespace hg {
 
             template<typename graph_t>
             auto get_weights(const graph_t &graph) {
+                hg_assert(m_sizes.size() + 1 == num_vertices(graph) * 2,
+                          "vertex_centroids and vertex_sizes first dimension must be equal to the number of vertices.");
                 array_1d<double> weights = xt::empty<double>({num_edges(graph)});
                 for (auto e: edge_iterator(graph)) {
                     weights(e) = cluster_distance(source(e, graph), target(e, graph));
@@ -494,6 +572,7 @@ namespace hg {
 
         auto &edge_weights = xedge_weights.derived_cast();
         hg_assert_edge_weights(graph, edge_weights);
+        hg_assert_1d_array(edge_weights);
 
         auto g = copy_graph<undirected_graph<hash_setS> >(graph); // optimized for removal
 
@@ -514,6 +593,22 @@ namespace hg {
         std::vector<binary_partition_tree_internal::new_neighbour<weight_t> > new_neighbours;
         const decltype(new_neighbours) &const_new_neighbours = new_neighbours;
 
+        // two regions must be linked by a single edge: for parallel edges only the edge of smallest weight is preserved.
+        // self-loops are useless
+        array_1d<index_t> preserved = xt::arange<index_t>(num_edges(g));
+        binary_partition_tree_internal::for_each_parallel_edge(
+                graph, [&g, &preserved, &edge_weights](index_t e1, index_t e2) {
+                    if (edge_weights(e2) < edge_weights(preserved(e1))) {
+                        std::swap(preserved(e1), e2);
+                    }
+                    remove_edge(e2, g);
+                });
+        for (auto &e: edge_iterator(graph)) {
+            if (source(e, graph) == target(e, graph)) {
+                remove_edge(index(e, graph), g);
+            }
+        }
+
         // init heap
         heap_t heap;
         array_1d<typename heap_t::value_handle> heap_handles({num_edges(g)}, nullptr);
@@ -648,11 +743,10 @@ namespace hg {
      */
     template<typename graph_t, typename T>
     auto binary_partition_tree_complete_linkage(const graph_t &graph, const xt::xexpression<T> &xedge_weights) {
-        return binary_partition_tree(
-                graph,
-                xedge_weights,
-                binary_partition_tree_internal::binary_partition_tree_complete_linkage_weighting_functor<T>(
-                        xedge_weights));
+        hg_assert_1d_array(xedge_weights.derived_cast());
+        binary_partition_tree_internal::binary_partition_tree_complete_linkage_weighting_functor<T> f(xedge_weights);
+        auto weights = f.get_weights(graph);
+        return binary_partition_tree(graph, weights, f);
     }
 
     /**
@@ -680,12 +774,13 @@ namespace hg {
     auto binary_partition_tree_average_linkage(const graph_t &graph,
                                                const xt::xexpression<T> &xedge_weights,
                                                const xt::xexpression<T> &xedge_weight_weights) {
-        return binary_partition_tree(
-                graph,
+        hg_assert_1d_array(xedge_weights.derived_cast());
+        hg_assert_1d_array(xedge_weight_weights.derived_cast());
+        binary_partition_tree_internal::binary_partition_tree_average_linkage_weighting_functor<T> f(
                 xedge_weights,
-                binary_partition_tree_internal::binary_partition_tree_average_linkage_weighting_functor<T>(
-                        xedge_weights,
-                        xedge_weight_weights));
+                xedge_weight_weights);
+        auto weights = f.get_weights(graph);
+        return binary_partition_tree(graph, weights, f);
     }
 
     /**
@@ -727,13 +822,14 @@ namespace hg {
                                                const xt::xexpression<T> &xedge_weights,
                                                const typename T::value_type &alpha,
                                                const xt::xexpression<T> &xedge_weight_weights) {
-        return binary_partition_tree(
-                graph,
+        hg_assert_1d_array(xedge_weights.derived_cast());
+        hg_assert_1d_array(xedge_weight_weights.derived_cast());
+        binary_partition_tree_internal::binary_partition_tree_exponential_linkage_weighting_functor<T> f(
                 xedge_weights,
-                binary_partition_tree_internal::binary_partition_tree_exponential_linkage_weighting_functor<T>(
-                        xedge_weights,
-                        xedge_weight_weights,
-                        alpha));
+                xedge_weight_weights,
+                alpha);
+        auto weights = f.get_weights(graph, xedge_weights);
+        return binary_partition_tree(graph, weights, f);
     }
 
     /**
-- 
2.43.0


From a2dcf097f0fe2d11713f73c198b584c3448446fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:44 +0000
Subject: [PATCH 038/116] fix: quasi_flat_zone_hierarchy of unsigned weights
 overflowed

---
 higra/hierarchy/py_hierarchy_core.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/higra/hierarchy/py_hierarchy_core.cpp b/higra/hierarchy/py_hierarchy_core.cpp
index c8b5fe2..e12541b 100644
--- a/higra/hierarchy/py_hierarchy_core.cpp
+++ b/higra/hierarchy/py_hierarchy_core.cpp
@@ -85,7 +85,7 @@ namespace py_hierarchy_core {
               py::arg("deleted_nodes"),
               py::arg("process_leaves"));
 
-        add_type_overloads<def_quasi_flat_zone_hierarchy<hg::ugraph>, HG_TEMPLATE_SNUMERIC_TYPES>
+        add_type_overloads<def_quasi_flat_zone_hierarchy<hg::ugraph>, HG_TEMPLATE_NUMERIC_TYPES>
                 (m,
                  "Compute the quasi flat zones hierarchy of the given weighted graph."
                 );
-- 
2.43.0


From a50ae91e6157544455088a01e62d9d466520370e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:44 +0000
Subject: [PATCH 039/116] fix: arguments whose type matches no overload were
 converted to int8

---
 include/higra/utils.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/higra/utils.hpp b/include/higra/utils.hpp
index 1d05c03..9257181 100644
--- a/include/higra/utils.hpp
+++ b/include/higra/utils.hpp
@@ -152,15 +152,17 @@ namespace hg {
 #define HG_STR(a) #a
 
 
-#define HG_TEMPLATE_SINTEGRAL_TYPES   int8_t, int16_t, int32_t, int64_t
+// Each list must start with its most general types: when the type of an argument matches none of the overloads declared
+// for the types of a list, it is converted to the first type for which a conversion exists.
+#define HG_TEMPLATE_SINTEGRAL_TYPES   int64_t, int32_t, int16_t, int8_t
 
-#define HG_TEMPLATE_INTEGRAL_TYPES    int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, int64_t, uint64_t
+#define HG_TEMPLATE_INTEGRAL_TYPES    int64_t, uint64_t, int32_t, uint32_t, int16_t, uint16_t, int8_t, uint8_t
 
-#define HG_TEMPLATE_FLOAT_TYPES       float, double
+#define HG_TEMPLATE_FLOAT_TYPES       double, float
 
-#define HG_TEMPLATE_NUMERIC_TYPES     int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, int64_t, uint64_t, float, double
+#define HG_TEMPLATE_NUMERIC_TYPES     double, float, int64_t, uint64_t, int32_t, uint32_t, int16_t, uint16_t, int8_t, uint8_t
 
-#define HG_TEMPLATE_SNUMERIC_TYPES    int8_t, int16_t, int32_t, int64_t, float, double
+#define HG_TEMPLATE_SNUMERIC_TYPES    double, float, int64_t, int32_t, int16_t, int8_t
 
 
 namespace xt {
-- 
2.43.0


From b2df4b8fd07294196f1f6d78738eab69a7a5ec8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:39 +0000
Subject: [PATCH 040/116] fix: overflows in the tree of shapes of images with
 large values

---
 include/higra/image/tree_of_shapes.hpp | 95 ++++++++++++++++++++++----
 1 file changed, 81 insertions(+), 14 deletions(-)

diff --git a/include/higra/image/tree_of_shapes.hpp b/include/higra/image/tree_of_shapes.hpp
index df76810..27ab211 100644
--- a/include/higra/image/tree_of_shapes.hpp
+++ b/include/higra/image/tree_of_shapes.hpp
@@ -274,6 +274,19 @@ namespace hg {
             }
         }
 
+        /**
+         * Middle of the interval [a, b], rounded toward 0 for integers: a + b may not be representable with value_type
+         */
+        template<typename value_type, typename std::enable_if_t<std::is_integral<value_type>::value, int> = 0>
+        auto middle_value(value_type a, value_type b) {
+            return (value_type) (a / 2 + b / 2 + (a % 2 + b % 2) / 2);
+        }
+
+        template<typename value_type, typename std::enable_if_t<!std::is_integral<value_type>::value, int> = 0>
+        auto middle_value(value_type a, value_type b) {
+            return (value_type) (a / 2.0 + b / 2.0);
+        }
+
         template<typename graph_t,
                 typename T,
                 typename value_type = typename T::value_type,
@@ -288,8 +301,7 @@ namespace hg {
             array_1d<value_type> enqueued_level = array_1d<value_type>::from_shape({num_v});
             integer_level_multi_queue<value_type, index_t> queue(xt::amin(plain_map)(), xt::amax(plain_map)());
 
-            value_type current_level = (value_type) ((plain_map(exterior_vertex, 0) + plain_map(exterior_vertex, 1)) /
-                                                     2.0);
+            value_type current_level = middle_value(plain_map(exterior_vertex, 0), plain_map(exterior_vertex, 1));
             queue.push(current_level, exterior_vertex);
             dejavu(exterior_vertex) = true;
 
@@ -338,15 +350,19 @@ namespace hg {
                 if (next == queue.end()) {
                     return prev;
                 }
-                if (next->first - position->first < position->first - prev->first) {
+                if (next->first == position->first) {
+                    return next;
+                }
+                // the difference of two values may not be representable with value_type
+                if ((double) next->first - (double) position->first <
+                    (double) position->first - (double) prev->first) {
                     return next;
                 } else {
                     return prev;
                 }
             };
 
-            value_type current_level = (value_type) ((plain_map(exterior_vertex, 0) + plain_map(exterior_vertex, 1)) /
-                                                     2.0);
+            value_type current_level = middle_value(plain_map(exterior_vertex, 0), plain_map(exterior_vertex, 1));
 
             auto position = queue.insert({current_level, exterior_vertex});
             dejavu(exterior_vertex) = true;
@@ -373,6 +389,53 @@ namespace hg {
             return std::make_pair(std::move(sorted_vertex_indices), std::move(enqueued_level));
         }
 
+        /**
+         * Mean of a known number of values. The sum of integer values may not be representable: quotients and remainders
+         * by the number of elements are summed separately (the result is rounded toward 0).
+         */
+        template<typename value_type, bool integral = std::is_integral<value_type>::value>
+        struct mean_value {
+            explicit mean_value(size_t num_elements) : m_num_elements((std::int64_t) num_elements) {}
+
+            void add(value_type v) {
+                m_quotient += (std::int64_t) v / m_num_elements;
+                m_remainder += (std::int64_t) v % m_num_elements;
+            }
+
+            auto value() const {
+                auto quotient = m_quotient + m_remainder / m_num_elements;
+                auto remainder = m_remainder % m_num_elements;
+                if (quotient > 0 && remainder < 0) {
+                    quotient--;
+                } else if (quotient < 0 && remainder > 0) {
+                    quotient++;
+                }
+                return (value_type) quotient;
+            }
+
+        private:
+            std::int64_t m_num_elements;
+            std::int64_t m_quotient = 0;
+            std::int64_t m_remainder = 0;
+        };
+
+        template<typename value_type>
+        struct mean_value<value_type, false> {
+            explicit mean_value(size_t num_elements) : m_num_elements(num_elements) {}
+
+            void add(value_type v) {
+                m_sum += v;
+            }
+
+            auto value() const {
+                return (value_type) (m_sum / m_num_elements);
+            }
+
+        private:
+            size_t m_num_elements;
+            double m_sum = 0;
+        };
+
         template<typename T>
         auto get_padding_value(const xt::xexpression<T> &ximage, tos_padding padding) {
             auto &image = ximage.derived_cast();
@@ -386,18 +449,23 @@ namespace hg {
                     pad_value = 0;
                     break;
                 case tos_padding::mean: {
-                    // compute mean of image boundaries: the sum may not be representable with value_type
-                    using sum_type = std::conditional_t<std::is_integral<value_type>::value, std::int64_t, double>;
-                    sum_type sum = 0;
-                    index_t num_elements = 0;
+                    // compute mean of image boundaries
+                    auto interior_size = [](size_t s) { return (s > 2) ? s - 2 : 0; };
+                    size_t num_elements = image.size();
+                    if (dim == 2) {
+                        num_elements -= interior_size(image.shape(0)) * interior_size(image.shape(1));
+                    } else if (dim == 3) {
+                        num_elements -= interior_size(image.shape(0)) * interior_size(image.shape(1)) *
+                                        interior_size(image.shape(2));
+                    }
+                    mean_value<value_type> mean(num_elements);
                     if (dim == 2) {
                         size_t h = image.shape(0);
                         size_t w = image.shape(1);
                         for (size_t y = 0; y < h; y++) {
                             for (size_t x = 0; x < w; x++) {
                                 if (y == 0 || y == h - 1 || x == 0 || x == w - 1) {
-                                    sum += image(y, x);
-                                    num_elements++;
+                                    mean.add(image(y, x));
                                 }
                             }
                         }
@@ -409,8 +477,7 @@ namespace hg {
                             for (size_t y = 0; y < h; y++) {
                                 for (size_t x = 0; x < w; x++) {
                                     if (z == 0 || z == d - 1 || y == 0 || y == h - 1 || x == 0 || x == w - 1) {
-                                        sum += image(z, y, x);
-                                        num_elements++;
+                                        mean.add(image(z, y, x));
                                     }
                                 }
                             }
@@ -418,7 +485,7 @@ namespace hg {
                     } else {
                         throw std::runtime_error("Unsupported dimension");
                     }
-                    pad_value = (value_type) (sum / num_elements);
+                    pad_value = mean.value();
                 }
                     break;
                 case tos_padding::none:
-- 
2.43.0


From 7378c4255d1de6df7c61059c3e64023824a9633c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:39 +0000
Subject: [PATCH 041/116] fix: labelisation_watershed of infinite edge weights

---
 include/higra/algo/watershed.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/higra/algo/watershed.hpp b/include/higra/algo/watershed.hpp
index 07e656c..78650a2 100644
--- a/include/higra/algo/watershed.hpp
+++ b/include/higra/algo/watershed.hpp
@@ -46,7 +46,9 @@ namespace hg {
         auto fminus = array_1d<value_type>::from_shape({graph.num_vertices()});
 
         for (auto v: vertex_iterator(graph)) {
-            auto minValue = (std::numeric_limits<value_type>::max)();
+            auto minValue = std::numeric_limits<value_type>::has_infinity ?
+                            std::numeric_limits<value_type>::infinity() :
+                            (std::numeric_limits<value_type>::max)();
             for (auto e: out_edge_iterator(v, graph)) {
                 minValue = (std::min)(minValue, edge_weights(e));
             }
-- 
2.43.0


From 6bda8822d6d5d3e0871e8963bb4cd253adc1e5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:46 +0000
Subject: [PATCH 042/116] fix: mst_edge_map of binary watershed hierarchies
 referred to wrong edges

---
 include/higra/hierarchy/watershed_hierarchy.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/higra/hierarchy/watershed_hierarchy.hpp b/include/higra/hierarchy/watershed_hierarchy.hpp
index cbf4909..f6ce9d0 100644
--- a/include/higra/hierarchy/watershed_hierarchy.hpp
+++ b/include/higra/hierarchy/watershed_hierarchy.hpp
@@ -90,7 +90,12 @@ namespace hg {
 
         auto mst_edge_weights = xt::view(persistence, xt::range(num_leaves(bpt), num_vertices(bpt)));
 
-        return bpt_canonical(mst, mst_edge_weights);
+        auto res = bpt_canonical(mst, mst_edge_weights);
+        // edge indices in the given graph instead of indices in its minimum spanning tree
+        for (auto &e: res.mst_edge_map) {
+            e = mst_edge_map(e);
+        }
+        return res;
     };
 
     /**
@@ -146,7 +151,12 @@ namespace hg {
 
         auto mst_edge_weights = xt::view(persistence, xt::range(num_leaves(bpt), num_vertices(bpt)));
 
-        return bpt_canonical(mst, mst_edge_weights);
+        auto res = bpt_canonical(mst, mst_edge_weights);
+        // edge indices in the given graph instead of indices in its minimum spanning tree
+        for (auto &e: res.mst_edge_map) {
+            e = mst_edge_map(e);
+        }
+        return res;
     };
 
     template<typename graph_t, typename T1, typename T2>
-- 
2.43.0


From 4b9879bb0f8b5e233c9665eb19a54166d5e70ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:46 +0000
Subject: [PATCH 043/116] fix: watershed by minima ordering split minima having
 several non zero vertices

---
 include/higra/hierarchy/watershed_hierarchy.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/higra/hierarchy/watershed_hierarchy.hpp b/include/higra/hierarchy/watershed_hierarchy.hpp
index f6ce9d0..69464e1 100644
--- a/include/higra/hierarchy/watershed_hierarchy.hpp
+++ b/include/higra/hierarchy/watershed_hierarchy.hpp
@@ -141,12 +141,14 @@ namespace hg {
 
         auto bptc = bpt_canonical(graph, edge_weights);
         auto &bpt = bptc.tree;
+        auto &altitude = bptc.altitudes;
         auto &mst_edge_map = bptc.mst_edge_map;
         auto mst = subgraph_spanning(graph, mst_edge_map);
 
         auto extinction = accumulate_sequential(bpt, minima_ranks, accumulator_max());
-        xt::view(extinction, xt::range(0, num_leaves(bpt))) = 0;
-        auto persistence = accumulate_parallel(bpt, extinction, accumulator_min());
+        // a minimum can have several non zero vertices: its inner nodes are not split
+        auto corrected_extinction = watershed_hierarchy_internal::correct_attribute_BPT(bpt, altitude, extinction);
+        auto persistence = accumulate_parallel(bpt, corrected_extinction, accumulator_min());
         xt::view(persistence, xt::range(0, num_leaves(bpt))) = 0;
 
         auto mst_edge_weights = xt::view(persistence, xt::range(num_leaves(bpt), num_vertices(bpt)));
-- 
2.43.0


From 46e2d49eab50b7a8225d126259c95b52ecb193a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:19 +0000
Subject: [PATCH 044/116] fix: alpha-omega hierarchy of small integer vertex
 weights overflowed

---
 higra/hierarchy/constrained_connectivity_hierarchy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/higra/hierarchy/constrained_connectivity_hierarchy.py b/higra/hierarchy/constrained_connectivity_hierarchy.py
index 7976e30..d461296 100644
--- a/higra/hierarchy/constrained_connectivity_hierarchy.py
+++ b/higra/hierarchy/constrained_connectivity_hierarchy.py
@@ -55,7 +55,7 @@ def constrained_connectivity_hierarchy_alpha_omega(graph, vertex_weights):
     # vertex value range inside each region
     min_value = hg.accumulate_sequential(tree, vertex_weights, hg.Accumulators.min)
     max_value = hg.accumulate_sequential(tree, vertex_weights, hg.Accumulators.max)
-    value_range = max_value - min_value
+    value_range = max_value.astype(altitudes.dtype) - min_value
 
     # parent node can't be deleted
     altitude_parents[tree.root()] = max(altitudes[tree.root()], value_range[tree.root()])
-- 
2.43.0


From 877ebe160a143311b7f6e7ba3e292fc0b539c757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:25 +0000
Subject: [PATCH 045/116] fix: horizontal cut explorer did not keep its tree
 alive and num_regions_cut was not bounds checked

---
 higra/algo/py_horizontal_cuts.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/higra/algo/py_horizontal_cuts.cpp b/higra/algo/py_horizontal_cuts.cpp
index 4e0fbe4..08ee566 100644
--- a/higra/algo/py_horizontal_cuts.cpp
+++ b/higra/algo/py_horizontal_cuts.cpp
@@ -75,6 +75,7 @@ namespace py_horizontal_cuts {
                              return c_t(tree, altitudes);
                          },
                          doc,
+                         py::keep_alive<0, 1>(), // the explorer holds a reference on the tree
                          py::arg("tree"),
                          py::arg("altitudes"));
         }
@@ -98,7 +99,11 @@ Each cut of the hierarchy can be accessed through:
                 (c, "");
         c.def("num_cuts", &class_t::num_cuts, "Number of horizontal cuts in the hierarchy.");
         c.def("num_regions_cut",
-              &class_t::num_regions_cut,
+              [](const class_t &c, index_t i) {
+                  hg_assert(i >= 0, "Cut index cannot be negative.");
+                  hg_assert(i < (index_t) c.num_cuts(), "Cut index out of bounds.");
+                  return c.num_regions_cut(i);
+              },
               "Number of regions in the i-th cut of the hierarchy (cut numbering start at 0 with the cut with a single region).",
               py::arg("i"));
         c.def("num_regions_cuts",
-- 
2.43.0


From e5496f124b6e5a237c256ab21f6b478e71d09e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:25 +0000
Subject: [PATCH 046/116] fix: horizontal cut threshold was converted to the
 integral type of the altitudes

---
 include/higra/algo/tree.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/higra/algo/tree.hpp b/include/higra/algo/tree.hpp
index 7b28dea..20452f5 100644
--- a/include/higra/algo/tree.hpp
+++ b/include/higra/algo/tree.hpp
@@ -72,10 +72,14 @@ namespace hg {
                                                     const value_t threshold) {
         HG_TRACE();
         auto &altitudes = xaltitudes.derived_cast();
+        using altitude_type = typename T::value_type;
+        // the threshold may not be representable with an integral type
+        using compare_type = std::conditional_t<std::is_floating_point<altitude_type>::value,
+                altitude_type, std::common_type_t<altitude_type, value_t>>;
         return reconstruct_leaf_data(tree,
                                      xt::arange<index_t>(num_vertices(tree)),
-                                     xt::index_view(altitudes, tree.parents())
-                                     <= static_cast<typename T::value_type>(threshold));
+                                     xt::cast<compare_type>(xt::index_view(altitudes, tree.parents()))
+                                     <= static_cast<compare_type>(threshold));
     };
 
     /**
-- 
2.43.0


From d53cf603142e8ae36b0eeaa06be46b6a63d05283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:43 +0000
Subject: [PATCH 047/116] fix: empty arrays were rejected by bindings requiring
 row major arrays

---
 lib/include/xtensor-python/pyarray.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/include/xtensor-python/pyarray.hpp b/lib/include/xtensor-python/pyarray.hpp
index 0854fb3..a025e35 100644
--- a/lib/include/xtensor-python/pyarray.hpp
+++ b/lib/include/xtensor-python/pyarray.hpp
@@ -523,7 +523,8 @@ namespace xt
                                        static_cast<size_type>(PyArray_NDIM(this->python_array())),
                                        reinterpret_cast<size_type*>(PyArray_SHAPE(this->python_array())));
 
-        if (L != layout_type::dynamic && !do_strides_match(m_shape, m_strides, L, 1))
+        // strides of empty arrays are not meaningful
+        if (L != layout_type::dynamic && PyArray_SIZE(this->python_array()) != 0 && !do_strides_match(m_shape, m_strides, L, 1))
         {
             throw std::runtime_error("NumPy: passing container with bad strides for layout (is it a view?).");
         }
-- 
2.43.0


From a46bc3089b8a860f7ed58a1aa10d56992867564d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:31 +0000
Subject: [PATCH 048/116] fix: labelisation_horizontal_cut_from_num_regions
 required a leaf graph

---
 higra/algo/tree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/higra/algo/tree.py b/higra/algo/tree.py
index 5e34af7..a1e9e53 100644
--- a/higra/algo/tree.py
+++ b/higra/algo/tree.py
@@ -129,10 +129,10 @@ def labelisation_horizontal_cut_from_num_regions(tree, altitudes, num_regions, m
     hc = hg.HorizontalCutExplorer(tree, altitudes)
     cut = hc.horizontal_cut_from_num_regions(num_regions, modeb)
 
-    leaf_labels = cut.labelisation_leaves(tree)
-
     if leaf_graph is not None:
-        leaf_labels = hg.delinearize_vertex_weights(leaf_labels, leaf_graph)
+        leaf_labels = cut.labelisation_leaves(tree, leaf_graph)
+    else:
+        leaf_labels = cut._labelisation_leaves(tree)
 
     return leaf_labels
 
-- 
2.43.0


From 7d7aa71c14bef89e1761128ff5118b57d8498d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:28 +0000
Subject: [PATCH 049/116] fix: propagators converted node weights to double
 when the condition was not boolean

---
 higra/accumulator/tree_accumulator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/higra/accumulator/tree_accumulator.py b/higra/accumulator/tree_accumulator.py
index cb14774..cd1bdd6 100644
--- a/higra/accumulator/tree_accumulator.py
+++ b/higra/accumulator/tree_accumulator.py
@@ -56,6 +56,7 @@ def propagate_sequential(tree, node_weights, condition):
     :param condition: Boolean array on the nodes of the tree
     :return: returns new tree node weights
     """
+    condition = np.asarray(condition, dtype=np.bool_)
     res = hg.cpp._propagate_sequential(tree, node_weights, condition)
     return res
 
@@ -85,6 +86,7 @@ def propagate_sequential_and_accumulate(tree, node_weights, accumulator, conditi
     if condition is None:
         res = hg.cpp._propagate_sequential_and_accumulate(tree, node_weights, accumulator)
     else:
+        condition = np.asarray(condition, dtype=np.bool_)
         res = hg.cpp._propagate_sequential_and_accumulate(tree, node_weights, accumulator, condition)
     return res
 
@@ -116,7 +118,7 @@ def propagate_parallel(tree, node_weights, condition=None):
     """
 
     if condition is not None:
-        condition = hg.cast_to_dtype(condition, np.bool_)
+        condition = np.asarray(condition, dtype=np.bool_)
         res = hg.cpp._propagate_parallel(tree, node_weights, condition)
     else:
         res = hg.cpp._propagate_parallel(tree, node_weights)
-- 
2.43.0


From 27d4c14a7556ceb3d006b4a089a0f47fdebdbac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:28 +0000
Subject: [PATCH 050/116] fix: simplify_tree linked a tree whose leaves changed
 to the original leaf graph

---
 higra/hierarchy/hierarchy_core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/higra/hierarchy/hierarchy_core.py b/higra/hierarchy/hierarchy_core.py
index 53a0384..7e30649 100644
--- a/higra/hierarchy/hierarchy_core.py
+++ b/higra/hierarchy/hierarchy_core.py
@@ -239,7 +239,10 @@ def simplify_tree(tree, deleted_vertices, process_leaves=False):
     new_tree = res.tree()
     node_map = res.node_map()
 
-    if hg.CptHierarchy.validate(tree):
+    # the leaf graph is only meaningful if all the leaves are preserved
+    num_leaves = tree.num_leaves()
+    leaves_preserved = new_tree.num_leaves() == num_leaves and np.all(node_map[:num_leaves] == np.arange(num_leaves))
+    if hg.CptHierarchy.validate(tree) and leaves_preserved:
         hg.CptHierarchy().link(new_tree, hg.CptHierarchy.get_leaf_graph(tree))
 
     return new_tree, node_map
-- 
2.43.0


From 648fb854b2cace3a4e3bedbcaa61373bf3e744c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:28 +0000
Subject: [PATCH 051/116] fix: non boolean filters were used as indices in
 filter_non_relevant_node_from_tree

---
 higra/algo/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/higra/algo/tree.py b/higra/algo/tree.py
index a1e9e53..b07f75a 100644
--- a/higra/algo/tree.py
+++ b/higra/algo/tree.py
@@ -215,7 +215,7 @@ def filter_non_relevant_node_from_tree(tree, altitudes, non_relevant_functor, le
     deleted_frontier_nodes = non_relevant_functor(tree, altitudes)
 
     mst_edge_weights = altitudes[tree.num_leaves():].copy()
-    mst_edge_weights[deleted_frontier_nodes[tree.num_leaves():]] = 0
+    mst_edge_weights[np.asarray(deleted_frontier_nodes[tree.num_leaves():], dtype=np.bool_)] = 0
     tree, altitudes = hg.bpt_canonical(mst, mst_edge_weights)
 
     if canonize_tree:
-- 
2.43.0


From 28133e0ac848bcfa65feec2d512c054779cbbd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:28 +0000
Subject: [PATCH 052/116] fix: fractional markers were ignored by
 binary_labelisation_from_markers

---
 higra/algo/tree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/higra/algo/tree.py b/higra/algo/tree.py
index b07f75a..cd65eb7 100644
--- a/higra/algo/tree.py
+++ b/higra/algo/tree.py
@@ -314,7 +314,9 @@ def binary_labelisation_from_markers(tree, object_marker, background_marker, lea
         object_marker = hg.linearize_vertex_weights(object_marker, leaf_graph)
         background_marker = hg.linearize_vertex_weights(background_marker, leaf_graph)
 
-    object_marker, background_marker = hg.cast_to_common_type(object_marker, background_marker)
+    # non zero values correspond to the markers
+    object_marker = (np.asarray(object_marker) != 0).astype(np.uint8)
+    background_marker = (np.asarray(background_marker) != 0).astype(np.uint8)
     labels = hg.cpp._binary_labelisation_from_markers(tree, object_marker, background_marker)
 
     if leaf_graph is not None:
-- 
2.43.0


From 891895e78329ef20cd68b833a6c2c2ca6166c255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:19 +0000
Subject: [PATCH 053/116] fix: region adjacency graph of a non saturated cut
 had self loops

---
 include/higra/algo/rag.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/higra/algo/rag.hpp b/include/higra/algo/rag.hpp
index 304734d..4692413 100644
--- a/include/higra/algo/rag.hpp
+++ b/include/higra/algo/rag.hpp
@@ -170,7 +170,8 @@ namespace hg {
                                     s.push(adjv);
                                 }
                             } else {
-                                if (vertex_map[adjv] != invalid_index) {
+                                // a non zero edge may also lie inside the current region
+                                if (vertex_map[adjv] != invalid_index && vertex_map[adjv] != num_regions) {
                                     auto num_region_adjacent = vertex_map[adjv];
                                     if (canonical_edge_indexes[num_region_adjacent] < lowest_edge) {
                                         add_edge(num_region_adjacent, num_regions, rag);
-- 
2.43.0


From 1781addbffee0350581b081f8b33742471c92fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:19 +0000
Subject: [PATCH 054/116] fix: out of bounds accesses in label projection with
 labels out of range

---
 include/higra/algo/alignment.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/higra/algo/alignment.hpp b/include/higra/algo/alignment.hpp
index 75afd27..e0a66c6 100644
--- a/include/higra/algo/alignment.hpp
+++ b/include/higra/algo/alignment.hpp
@@ -52,6 +52,7 @@ namespace hg {
         hg_assert_1d_array(labelisation_coarse);
         hg_assert(labelisation_fine.size() == labelisation_coarse.size(),
                   "Labelisations must have the same size.");
+        hg_assert(labelisation_fine.size() != 0, "Labelisations must not be empty.");
 
         if (num_regions_fine == 0) {
             num_regions_fine = xt::amax(labelisation_fine)(0) + 1;
@@ -61,6 +62,13 @@ namespace hg {
             num_regions_coarse = xt::amax(labelisation_coarse)(0) + 1;
         }
 
+        for (index_t i = 0; i < (index_t) labelisation_fine.size(); i++) {
+            hg_assert((index_t) labelisation_fine(i) >= 0 && (size_t) labelisation_fine(i) < num_regions_fine,
+                      "Fine label out of range.");
+            hg_assert((index_t) labelisation_coarse(i) >= 0 && (size_t) labelisation_coarse(i) < num_regions_coarse,
+                      "Coarse label out of range.");
+        }
+
         array_2d<size_t> intersections = xt::zeros<size_t>({num_regions_fine, num_regions_coarse});
 
         for (index_t i = 0; i < (index_t)labelisation_fine.size(); i++) {
@@ -107,6 +115,8 @@ namespace hg {
             auto &rag = rag_fine.rag;
 
             auto fine_to_coarse_map = project_fine_to_coarse_labelisation(fine_supervertices, coarse_supervertices);
+            hg_assert(xt::amax(fine_to_coarse_map)() < (index_t) num_leaves(tree_coarse),
+                      "Coarse labels do not match the leaves of the tree.");
             array_1d<typename T2::value_type> coarse_sm_on_fine_rag = xt::empty<typename T2::value_type>(
                     {num_edges(rag_fine.rag)});
 
-- 
2.43.0


From 83a16c8cd2e9b78b7d9cb9146d156beeaadd62c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:32 +0000
Subject: [PATCH 055/116] fix: removed edges reappeared in adjacency matrices
 and vertex induced subgraphs

---
 higra/algo/graph_core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/higra/algo/graph_core.py b/higra/algo/graph_core.py
index f908bb4..974fc6b 100644
--- a/higra/algo/graph_core.py
+++ b/higra/algo/graph_core.py
@@ -70,6 +70,10 @@ def undirected_graph_2_adjacency_matrix(graph, edge_weights=None, non_edge_value
     num_v = graph.num_vertices()
     sources, targets = graph.edge_list()
 
+    valid_edges = sources >= 0
+    if not np.all(valid_edges):  # removed edges
+        sources, targets, edge_weights = sources[valid_edges], targets[valid_edges], edge_weights[valid_edges]
+
     if sparse:
         try:
             from scipy.sparse import csr_matrix
@@ -388,6 +392,7 @@ def vertex_induced_subgraph(graph, vertex_indices, return_edge_map=False):
 
     sources, targets = graph.edge_list()
     valid_edges_mask = np.logical_and(keep_mask[sources], keep_mask[targets])
+    valid_edges_mask[sources < 0] = False  # removed edges
     edge_indices = np.where(valid_edges_mask)[0]
 
     sub = hg.UndirectedGraph(num_v_sub)
-- 
2.43.0


From 8b0160f2dc33c6427063583ae0aa778edb8ce694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:32 +0000
Subject: [PATCH 056/116] fix: complete graph of points lost the edges between
 coincident points

---
 higra/algo/graph_core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/higra/algo/graph_core.py b/higra/algo/graph_core.py
index 974fc6b..2b92aa9 100644
--- a/higra/algo/graph_core.py
+++ b/higra/algo/graph_core.py
@@ -244,9 +244,10 @@ def make_graph_from_points(X, graph_type="knn+mst", symmetrization="max", **kwar
             raise ValueError("Unknown symmetrization: " + str(symmetrization))
 
     if graph_type == "complete":
-        d = pdist(X)
-        A = squareform(d)
-        g, edge_weights = hg.adjacency_matrix_2_undirected_graph(A)
+        # do not go through an adjacency matrix: distances between coincident points are equal to 0
+        g = hg.UndirectedGraph(X.shape[0])
+        g.add_edges(*np.triu_indices(X.shape[0], k=1))
+        edge_weights = pdist(X)
     elif graph_type == "knn":
         A = kneighbors_graph(X, n_neighbors=n_neighbors, mode=mode)
         A = symmetrization_fun(A)
-- 
2.43.0


From 851e62b03d95bc7721f8822a4a9534a422905521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:32 +0000
Subject: [PATCH 057/116] fix: volume attribute overflowed with integral
 altitudes

---
 higra/attribute/tree_attributes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/higra/attribute/tree_attributes.py b/higra/attribute/tree_attributes.py
index 13e8108..65c61e6 100644
--- a/higra/attribute/tree_attributes.py
+++ b/higra/attribute/tree_attributes.py
@@ -59,6 +59,8 @@ def attribute_volume(tree, altitudes, area=None, leaf_volume=None):
     if area is None:
         area = hg.attribute_area(tree)
 
+    # difference computed on real values: it may not be representable with the type of the altitudes
+    altitudes = hg.cast_to_dtype(altitudes, np.float64)
     height = np.abs(altitudes[tree.parents()] - altitudes)
     height = height * area
 
-- 
2.43.0


From eb42ecc579dce512a20384d2067a07738ec41f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:32 +0000
Subject: [PATCH 058/116] fix: contour length and strength failed or overflowed
 with unsigned or small integers, contour strength rejected weights on the
 edges of a rag

---
 higra/attribute/tree_attributes.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/higra/attribute/tree_attributes.py b/higra/attribute/tree_attributes.py
index 65c61e6..2c1948f 100644
--- a/higra/attribute/tree_attributes.py
+++ b/higra/attribute/tree_attributes.py
@@ -168,6 +168,10 @@ def attribute_contour_length(tree, vertex_perimeter=None, edge_length=None, leaf
     if leaf_graph is not None:
         vertex_perimeter = hg.linearize_vertex_weights(vertex_perimeter, leaf_graph)
 
+    # lengths may not be negated nor summed safely with small or unsigned integer types
+    vertex_perimeter = hg.cast_to_dtype(vertex_perimeter, np.float64)
+    edge_length = hg.cast_to_dtype(edge_length, np.float64)
+
     frontier_length = hg.attribute_frontier_length(tree, edge_length, leaf_graph)
     perimeter = hg.accumulate_and_add_sequential(tree, -2 * frontier_length, vertex_perimeter,
                                                  hg.Accumulators.sum)
@@ -215,7 +219,11 @@ def attribute_contour_strength(tree, edge_weights, vertex_perimeter=None, edge_l
         perimeter = perimeter.copy()  # the contour length is stored in the cache
         perimeter[-1] = 1
 
-    if hg.CptRegionAdjacencyGraph.validate(leaf_graph):
+    # sums of weights may not be representable with the type of the weights
+    edge_weights = hg.cast_to_dtype(edge_weights, np.float64)
+
+    # this is a rag like graph
+    if hg.CptRegionAdjacencyGraph.validate(leaf_graph) and edge_weights.shape[0] != leaf_graph.num_edges():
         edge_weights = hg.rag_accumulate_on_edges(leaf_graph, hg.Accumulators.sum, edge_weights)
 
     vertex_weights_sum = hg.accumulate_graph_edges(leaf_graph, edge_weights, hg.Accumulators.sum)
-- 
2.43.0


From 81d31b50c86cbd847db50068486ceded483267d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:32 +0000
Subject: [PATCH 059/116] fix: gaussian model of the nodes of a hierarchy on a
 rag was not normalized by the number of leaves

---
 higra/attribute/tree_attributes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/higra/attribute/tree_attributes.py b/higra/attribute/tree_attributes.py
index 2c1948f..deb089a 100644
--- a/higra/attribute/tree_attributes.py
+++ b/higra/attribute/tree_attributes.py
@@ -394,7 +394,8 @@ def attribute_gaussian_region_weights_model(tree, vertex_weights, leaf_graph=Non
     if vertex_weights.dtype not in (np.float32, np.float64):
         vertex_weights = vertex_weights.astype(np.float64)
 
-    area = hg.attribute_area(tree, leaf_graph=leaf_graph)
+    # number of leaves of each node: vertices of the leaf graph may not have a unit area
+    area = hg.accumulate_sequential(tree, np.ones((tree.num_leaves(),), dtype=np.float64), hg.Accumulators.sum)
     mean = hg.accumulate_sequential(tree, vertex_weights, hg.Accumulators.sum, leaf_graph)
 
     if vertex_weights.ndim == 1:
-- 
2.43.0


From 7033a26b221cc6d4d8595db34bf5283b90f706b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:36 +0000
Subject: [PATCH 060/116] fix: extinction values lost the path to an extremum
 at the largest or lowest value of the type of the altitudes

---
 include/higra/attribute/tree_attribute.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/higra/attribute/tree_attribute.hpp b/include/higra/attribute/tree_attribute.hpp
index 1d8a042..66659a3 100644
--- a/include/higra/attribute/tree_attribute.hpp
+++ b/include/higra/attribute/tree_attribute.hpp
@@ -267,11 +267,11 @@ namespace hg {
                 bool flag = true;
                 for (auto c: children_iterator(n, tree)) {
                     if (!is_leaf(c, tree)) {
-                        flag = false;
-                        if (min_depth(c) < min_depth(n)) {
+                        if (flag || min_depth(c) < min_depth(n)) {
                             min_depth(n) = min_depth(c);
                             ref_son(n) = c;
                         }
+                        flag = false;
                     }
                 }
                 if (flag) {
@@ -285,11 +285,11 @@ namespace hg {
                 bool flag = true;
                 for (auto c: children_iterator(n, tree)) {
                     if (!is_leaf(c, tree)) {
-                        flag = false;
-                        if (max_depth(c) > max_depth(n)) {
+                        if (flag || max_depth(c) > max_depth(n)) {
                             max_depth(n) = max_depth(c);
                             ref_son(n) = c;
                         }
+                        flag = false;
                     }
                 }
                 if (flag) {
-- 
2.43.0


From f907e7b9e96a4674178ed85548d77dd4c5ef2101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:36 +0000
Subject: [PATCH 061/116] fix: extinction value of the non leaf nodes
 containing no extremum was not null

---
 include/higra/attribute/tree_attribute.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/higra/attribute/tree_attribute.hpp b/include/higra/attribute/tree_attribute.hpp
index 66659a3..391f3b0 100644
--- a/include/higra/attribute/tree_attribute.hpp
+++ b/include/higra/attribute/tree_attribute.hpp
@@ -317,6 +317,15 @@ namespace hg {
             indices(root(tree)) = -1;
         }
         auto extrema_leaves = propagate_sequential(tree, indices, !extrema);
+        // extinction of non leaf nodes that do not contain any extremum
+        array_1d<bool> contains_extremum = extrema;
+        for (auto n: leaves_to_root_iterator(tree, leaves_it::exclude)) {
+            if (!contains_extremum(n)) {
+                extinction(n) = 0;
+            } else {
+                contains_extremum(parent(n, tree)) = true;
+            }
+        }
         for (auto n: leaves_iterator(tree)) {
             if (extrema_leaves(n) != -1) {
                 extinction(n) = extinction(extrema_leaves(n));
-- 
2.43.0


From 1b139ba78e43030cb21e26d957d2ef0199e1426d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:36 +0000
Subject: [PATCH 062/116] fix: depth map of the fusion of trees could not be
 called with several trees

---
 higra/algo/tree_fusion.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/higra/algo/tree_fusion.py b/higra/algo/tree_fusion.py
index 986535e..3bc51fe 100644
--- a/higra/algo/tree_fusion.py
+++ b/higra/algo/tree_fusion.py
@@ -47,4 +47,7 @@ def tree_fusion_depth_map(*trees):
     :return: a depth map representing the fusion of the input trees
     """
 
-    return hg.cpp._tree_fusion_depth_map(*trees)
+    if len(trees) == 1 and hg.is_iterable(trees[0]):
+        trees = trees[0]
+
+    return hg.cpp._tree_fusion_depth_map(list(trees))
-- 
2.43.0


From 896ec2c5058a08b743eb265c8758fea4b6fec633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:44 +0000
Subject: [PATCH 063/116] fix: null model of the tree sampling probability
 overflowed with small integer weights

---
 higra/attribute/tree_attributes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/higra/attribute/tree_attributes.py b/higra/attribute/tree_attributes.py
index deb089a..e4747f2 100644
--- a/higra/attribute/tree_attributes.py
+++ b/higra/attribute/tree_attributes.py
@@ -687,6 +687,7 @@ def attribute_tree_sampling_probability(tree, leaf_graph, leaf_graph_edge_weight
         np.add.at(result, lca_map, leaf_graph_edge_weights)
         return result
     else:  # model = 'null'
+        leaf_graph_edge_weights = hg.cast_to_dtype(leaf_graph_edge_weights, np.float64)
         leaf_graph_vertex_weights = hg.accumulate_graph_edges(leaf_graph, leaf_graph_edge_weights, hg.Accumulators.sum)
         leaf_graph_vertex_weights = leaf_graph_vertex_weights / np.sum(leaf_graph_edge_weights)
         tree_node_weights = hg.accumulate_sequential(tree, leaf_graph_vertex_weights, hg.Accumulators.sum)
-- 
2.43.0


From 9eb16cc1a061d0dfdd85e93b1a104079c643fa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:09 +0000
Subject: [PATCH 064/116] fix: depth map of the fusion of single node trees
 read uninitialized memory

---
 include/higra/algo/tree_fusion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/higra/algo/tree_fusion.hpp b/include/higra/algo/tree_fusion.hpp
index c80177f..567644c 100644
--- a/include/higra/algo/tree_fusion.hpp
+++ b/include/higra/algo/tree_fusion.hpp
@@ -147,7 +147,7 @@ namespace hg {
             * Depth of the nodes of the GOS
             */
             array_1d<index_t> depth = xt::zeros<index_t>({nnodes});
-            for (index_t i = nnodes - 1; i >= 0; i--) {
+            for (index_t i = count - 1; i >= 0; i--) {
                 index_t n = sorted_nodes[i];
                 for (auto o: adj_lists[n]) {
                     depth(o) = (std::max)(depth(o), depth(n) + 1);
-- 
2.43.0


From d72993b1347215d1cccbb9089a1a5a0d601bfdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:08 +0000
Subject: [PATCH 065/116] fix: fusion of trees with different numbers of leaves
 was not rejected

---
 include/higra/algo/tree_fusion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/higra/algo/tree_fusion.hpp b/include/higra/algo/tree_fusion.hpp
index 567644c..8e6c30f 100644
--- a/include/higra/algo/tree_fusion.hpp
+++ b/include/higra/algo/tree_fusion.hpp
@@ -31,7 +31,7 @@ namespace hg {
             hg_assert(ntrees > 1, "Fusion requires at least two trees");
             auto nleaves = num_leaves(**first);
             for (tree_iterator t = first; t != last; t++) {
-                hg_assert(num_leaves(**t), "All trees must have the same number of leaves.");
+                hg_assert(num_leaves(**t) == nleaves, "All trees must have the same number of leaves.");
             }
 
             // cheap digraph!
-- 
2.43.0


From 3adf3fc3a0db01ae6312101e4ffcc13fe3c7ca7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:33 +0000
Subject: [PATCH 066/116] fix: root of the optimal energy cut hierarchy could
 have a negative altitude, smaller than its children

---
 include/higra/algo/tree_energy_optimization.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/higra/algo/tree_energy_optimization.hpp b/include/higra/algo/tree_energy_optimization.hpp
index 92bd1f1..c006228 100644
--- a/include/higra/algo/tree_energy_optimization.hpp
+++ b/include/higra/algo/tree_energy_optimization.hpp
@@ -650,6 +650,7 @@ namespace hg {
                     {0, data_fidelity_attribute(i), regularization_attribute(i)});
         }
 
+        apparition_scales(root(tree)) = (std::max)(0.0, apparition_scales(root(tree)));
         for (auto i: root_to_leaves_iterator(tree, leaves_it::include, root_it::exclude)) {
             apparition_scales(i) = (std::max)(0.0,
                                               (std::min)(apparition_scales(i), apparition_scales(parent(i, tree))));
-- 
2.43.0


From b80018649397ac0aa4949069d9597627f6ee9184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:38 +0000
Subject: [PATCH 067/116] fix: dendrogram purity of a hierarchy on a rag mixed
 numbers of leaves and areas

---
 higra/assessment/hierarchical_cost.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/higra/assessment/hierarchical_cost.py b/higra/assessment/hierarchical_cost.py
index 69e41cc..167d396 100644
--- a/higra/assessment/hierarchical_cost.py
+++ b/higra/assessment/hierarchical_cost.py
@@ -53,7 +53,7 @@ def dendrogram_purity(tree, leaf_labels):
         raise ValueError("leaf_labels must be a 1d integral array of length `tree.num_leaves()`")
 
     num_l = tree.num_leaves()
-    area = hg.attribute_area(tree)
+    area = hg.attribute_area(tree, vertex_area=np.ones((num_l,), dtype=np.float64))
 
     max_label = np.max(leaf_labels)
     num_labels = max_label + 1
-- 
2.43.0


From b7e206d3a29e1eefe8fbf3bf29788fa2c2617c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:38 +0000
Subject: [PATCH 068/116] fix: optimal partition with too many regions read out
 of bounds

---
 include/higra/assessment/fragmentation_curve.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/higra/assessment/fragmentation_curve.hpp b/include/higra/assessment/fragmentation_curve.hpp
index 2af239b..51ecd90 100644
--- a/include/higra/assessment/fragmentation_curve.hpp
+++ b/include/higra/assessment/fragmentation_curve.hpp
@@ -307,6 +307,8 @@ namespace hg {
             if (num_regions == 0) {
                 num_regions = optimal_number_of_regions();
             }
+            hg_assert(num_regions <= backtracking[root(m_tree)].size(),
+                      "The number of regions is larger than the maximum number of regions of the optimal cuts.");
             array_1d<bool> non_cut_nodes({num_vertices(m_tree)}, true);
             std::stack<std::pair<index_t, size_t>> s;
             s.push({root(m_tree), num_regions});
-- 
2.43.0


From 9c625bf58dc80bf6b19b22dba6566b4db71e0aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:48 +0000
Subject: [PATCH 069/116] fix: dendrogram purity failed with a single class on
 an image with a single column

---
 higra/assessment/hierarchical_cost.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/higra/assessment/hierarchical_cost.py b/higra/assessment/hierarchical_cost.py
index 167d396..e72aa77 100644
--- a/higra/assessment/hierarchical_cost.py
+++ b/higra/assessment/hierarchical_cost.py
@@ -61,6 +61,8 @@ def dendrogram_purity(tree, leaf_labels):
     label_histo_leaves[np.arange(num_l), leaf_labels] = 1
 
     label_histo = hg.accumulate_sequential(tree, label_histo_leaves, hg.Accumulators.sum)
+    # (n, 1) histograms are seen as images if the leaf graph is a grid graph of shape (n, 1)
+    label_histo = label_histo.reshape((tree.num_vertices(), num_labels))
     class_purity = label_histo / area[:, np.newaxis]
 
     weights = hg.attribute_children_pair_sum_product(tree, label_histo)
-- 
2.43.0


From fd461f227ad7bdabe0dbef2889359741499b4eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:14 +0000
Subject: [PATCH 070/116] fix: bipartite matching never terminates with large
 edge weights (cost truncated to int, precision limit)

---
 higra/algo/bipartite_graph.py      | 5 +++--
 include/higra/algo/details/csa.hpp | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/higra/algo/bipartite_graph.py b/higra/algo/bipartite_graph.py
index 3e96200..c68e3af 100644
--- a/higra/algo/bipartite_graph.py
+++ b/higra/algo/bipartite_graph.py
@@ -163,8 +163,9 @@ def bipartite_graph_matching(graph, edge_weights):
 
     # must be larger than the weight of any matching to ensure that the result is of maximum cardinality
     very_large_weight = max_edge_weight * min(lhs_size, rhs_size) + 1
-    # check that very_large_weight is not too large
-    if very_large_weight > 2 ** 60 - 1:
+    # check that very_large_weight is not too large: the solver works with double precision prices which must be
+    # accurate up to a precision of 1/num_vertices, otherwise it may never terminate
+    if very_large_weight * int(num_vertices) > 2 ** 50:
         raise ValueError("edge weights are too large")
 
     edge_weights = edge_weights - min_edge_weight
diff --git a/include/higra/algo/details/csa.hpp b/include/higra/algo/details/csa.hpp
index ab02a84..85836c3 100755
--- a/include/higra/algo/details/csa.hpp
+++ b/include/higra/algo/details/csa.hpp
@@ -376,6 +376,7 @@ Please report any problems to robert@cs.stanford.edu.
 
 #include <assert.h>
 #include <stdlib.h>
+#include <cstdlib>
 #include <stdio.h>
 #include <math.h>
 
@@ -1578,7 +1579,7 @@ setup is free.
                     temp_a->tail = head_lhs_node + tail;
                     temp_a->cost = cost;
                     temp_a->edge_index = i;
-                    if ((cost = abs((int) cost)) > max_cost) max_cost = cost;
+                    if ((cost = std::abs(cost)) > max_cost) max_cost = cost;
                     temp_a++;
                     lhs_degree[tail]++;
 #ifdef    STORE_REV_ARCS
-- 
2.43.0


From 7d9e64a621849d72f0fae72e857a99ab777e1b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:42 +0000
Subject: [PATCH 071/116] fix: fit_contour_2d: coordinates of the contour
 elements of images with a single column

The orientation of an edge was deduced from the linear indices of its
extremities, which differ by 1 for the vertical edges of an image of width 1.
---
 include/higra/image/contour_2d.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/higra/image/contour_2d.hpp b/include/higra/image/contour_2d.hpp
index bbef73c..24d048c 100644
--- a/include/higra/image/contour_2d.hpp
+++ b/include/higra/image/contour_2d.hpp
@@ -416,11 +416,9 @@ namespace hg {
             auto s = source(e, graph);
             auto t = target(e, graph);
             point_type coordinates = embedding.lin2grid(s);
-            if (s + 1 == t) { // horizontal edge
-                coordinates[1] += 0.5;
-            } else { // vertical edge
-                coordinates[0] += 0.5;
-            }
+            point_type coordinates_target = embedding.lin2grid(t);
+            coordinates[0] = (coordinates[0] + coordinates_target[0]) / 2;
+            coordinates[1] = (coordinates[1] + coordinates_target[1]) / 2;
             return coordinates;
         };
 
-- 
2.43.0


From f8b8a9488113611c2edfb0dd3d1de8f23c81f4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:42 +0000
Subject: [PATCH 072/116] fix: fit_contour_2d: edges with a negative weight
 belong to the cut

The cut is documented as composed of the edges with a non zero weight.
---
 include/higra/image/contour_2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/higra/image/contour_2d.hpp b/include/higra/image/contour_2d.hpp
index 24d048c..e06dac1 100644
--- a/include/higra/image/contour_2d.hpp
+++ b/include/higra/image/contour_2d.hpp
@@ -403,7 +403,7 @@ namespace hg {
 
         array_1d<index_t> positive_edge_index = xt::empty<index_t>({num_edges(graph)});
         for (index_t i = 0; i < (index_t) positive_edge_index.size(); i++) {
-            if (edge_weights[i] > 0)
+            if (edge_weights[i] != 0)
                 positive_edge_index[i] = i;
             else positive_edge_index[i] = invalid_index;
         }
-- 
2.43.0


From 65f0259249af4748e24f8c78071050353ee7f7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:42 +0000
Subject: [PATCH 073/116] fix: fit_contour_2d: contours with a dead end

The end of a contour which does not reach the border or another contour was
followed as if it continued: elements which are not in the cut were read.
---
 include/higra/image/contour_2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/higra/image/contour_2d.hpp b/include/higra/image/contour_2d.hpp
index e06dac1..551d1e4 100644
--- a/include/higra/image/contour_2d.hpp
+++ b/include/higra/image/contour_2d.hpp
@@ -441,7 +441,7 @@ namespace hg {
                 count++;
             if (contours_khalimsky(y + 1, x) != invalid_index)
                 count++;
-            return count > 2;
+            return count != 2; // junction or dead end
         };
 
         enum direction {
-- 
2.43.0


From 92301cd9926689a11b32ff42c0b6e403e5b71807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:59 +0000
Subject: [PATCH 074/116] fix: read_tree: missing or truncated files are
 rejected

Reading a header stopped before its END key never terminated, and the missing
parents or attribute values were replaced by arbitrary ones.
---
 include/higra/io/tree_io.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/higra/io/tree_io.hpp b/include/higra/io/tree_io.hpp
index 5474c59..d09897c 100644
--- a/include/higra/io/tree_io.hpp
+++ b/include/higra/io/tree_io.hpp
@@ -122,6 +122,7 @@ namespace hg {
         while (key != HG_TREE_IO_HEADEREND_KEY) {
             int value;
             in >> tmp;
+            hg_assert(!in.fail(), "Invalid tree file: incomplete header.");
             std::size_t pos = tmp.find('=');
             if (pos != std::string::npos) {
                 key = tmp.substr(0, pos);
@@ -154,6 +155,7 @@ namespace hg {
         array_1d<int> parents;
         parents.resize({std::size_t(num_vertices)});
         in.read(reinterpret_cast<char *>(parents.data()), std::streamsize(num_vertices * sizeof(int)));
+        hg_assert(!in.fail(), "Invalid tree file: incomplete parent array.");
 
         std::map<std::string, array_1d<double>> attributes;
 
@@ -162,6 +164,7 @@ namespace hg {
             key = "";
             while (key != HG_TREE_IO_HEADEREND_KEY) {
                 in >> tmp;
+                hg_assert(!in.fail(), "Invalid tree file: incomplete attribute header.");
                 std::size_t pos = tmp.find('=');
                 std::string value;
                 if (pos != std::string::npos) {
@@ -185,6 +188,7 @@ namespace hg {
 
             attributes.emplace(name, array_1d<double>::from_shape({std::size_t(num_vertices)}));
             in.read(reinterpret_cast<char *>(attributes[name].data()), std::streamsize(num_vertices * sizeof(double)));
+            hg_assert(!in.fail(), "Invalid tree file: incomplete values of the attribute " + name + ".");
         }
 
         return std::make_pair(tree(parents), std::move(attributes));
-- 
2.43.0


From 3035acbdc2279f9d4fac601f07c74122a8276b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:12 +0000
Subject: [PATCH 075/116] fix: save_tree/read_tree: attribute names containing
 spaces

Only the first word of the name was read back, the next ones being reported as
unknown keys. Names that cannot be stored are rejected by save_tree.
---
 include/higra/io/tree_io.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/higra/io/tree_io.hpp b/include/higra/io/tree_io.hpp
index d09897c..60f1de1 100644
--- a/include/higra/io/tree_io.hpp
+++ b/include/higra/io/tree_io.hpp
@@ -50,6 +50,8 @@ namespace hg {
                 auto &array = xarray.derived_cast();
                 hg_assert(array.dimension() == 1, "Only scalar attributes are supported.");
                 hg_assert(array.size() == m_tree.num_vertices(), "Attribute size does not match the size of the tree.");
+                hg_assert(name != "" && name.find('\n') == std::string::npos,
+                          "Attribute names cannot be empty and cannot contain line breaks.");
 
                 // force conversion to double
                 // TODO avoid copy when not needed
@@ -164,6 +166,12 @@ namespace hg {
             key = "";
             while (key != HG_TREE_IO_HEADEREND_KEY) {
                 in >> tmp;
+                if (tmp.compare(0, sizeof(HG_TREE_IO_NAME_KEY), HG_TREE_IO_NAME_KEY "=") == 0) {
+                    // the name is the remaining of the line: it may contain spaces
+                    std::string remaining;
+                    std::getline(in, remaining);
+                    tmp += remaining;
+                }
                 hg_assert(!in.fail(), "Invalid tree file: incomplete attribute header.");
                 std::size_t pos = tmp.find('=');
                 std::string value;
-- 
2.43.0


From 86a154fefe214c8424effd08835da55bc5288f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:12 +0000
Subject: [PATCH 076/116] fix: save_tree, save_graph_pink: files that cannot be
 written are reported

Nothing was saved, silently, when the file could not be opened.
---
 higra/io_utils/py_tree_io.cpp      | 3 +++
 include/higra/io/pink_graph_io.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/higra/io_utils/py_tree_io.cpp b/higra/io_utils/py_tree_io.cpp
index edfa85a..5f06319 100644
--- a/higra/io_utils/py_tree_io.cpp
+++ b/higra/io_utils/py_tree_io.cpp
@@ -24,6 +24,7 @@ namespace py_tree_io {
 
         m.def("_read_tree", [](const std::string &filename) {
                   std::ifstream file(filename);
+                  hg_assert(file.is_open(), "Cannot open the file " + filename);
                   return hg::read_tree(file);
               },
               "Read tree from mixed ascii/binary format. Return a pair with the tree and a map of attributes (tree, dict[string => 1d array[double] ])",
@@ -32,11 +33,13 @@ namespace py_tree_io {
         m.def("save_tree", [](const std::string &filename, const hg::tree &tree,
                               const std::map<std::string, pyarray<double>> &attributes) {
                   std::ofstream file(filename);
+                  hg_assert(file.is_open(), "Cannot open the file " + filename);
                   auto s = hg::save_tree(file, tree);
                   for (auto e: attributes) {
                       s.add_attribute(e.first, e.second);
                   }
                   s.finalize();
+                  hg_assert(file.flush().good(), "Error while writing the file " + filename);
               },
               "Save a tree and scalar attributes to mixed ascii/binary format. "
               "Attributes must be numpy 1d arrays stored in a dictionary with string keys (attribute names).",
diff --git a/include/higra/io/pink_graph_io.hpp b/include/higra/io/pink_graph_io.hpp
index 9baea24..45c8941 100644
--- a/include/higra/io/pink_graph_io.hpp
+++ b/include/higra/io/pink_graph_io.hpp
@@ -95,6 +95,7 @@ namespace hg {
     inline
     auto read_pink_graph(const std::string &filename) {
         std::ifstream file(filename);
+        hg_assert(file.is_open(), "Cannot open the file " + filename);
         return read_pink_graph(file);
     };
 
@@ -170,7 +171,9 @@ namespace hg {
                          S &shape = std::vector<std::size_t>()
     ) {
         std::ofstream file(filename);
+        hg_assert(file.is_open(), "Cannot open the file " + filename);
         save_pink_graph(file, graph, xvertex_values, xedge_values, shape);
+        hg_assert(file.flush().good(), "Error while writing the file " + filename);
     };
 
 }
-- 
2.43.0


From 28acdce1d3a4b37029b319a7a6926bf84157035a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:46 +0000
Subject: [PATCH 077/116] fix: read_graph_pink: incomplete or corrupted files
 are rejected

The vertices, edges and weights missing in the file were replaced by arbitrary
ones.
---
 include/higra/io/pink_graph_io.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/higra/io/pink_graph_io.hpp b/include/higra/io/pink_graph_io.hpp
index 45c8941..a0eef8f 100644
--- a/include/higra/io/pink_graph_io.hpp
+++ b/include/higra/io/pink_graph_io.hpp
@@ -50,6 +50,7 @@ namespace hg {
         index_t num_points;
         index_t num_edges;
         in >> num_points >> num_edges;
+        hg_assert(!in.fail(), "Invalid graph file: incomplete header.");
 
         hg_assert(num_points > 0, "The number of vertices cannot be negative.");
         hg_assert(num_edges > 0, "The number of edges cannot be negative.");
@@ -65,12 +66,16 @@ namespace hg {
         // vertex list
         ugraph g(num_points);
         auto vertex_weight = array_1d<double>::from_shape({(size_t)num_points});
+        std::vector<bool> vertex_found(num_points, false);
 
         for (index_t l = 0; l < num_points; ++l) {
             index_t i;
             double d;
             in >> i >> d;
+            hg_assert(!in.fail(), "Invalid graph file: incomplete vertex list.");
             hg_assert(0 <= i && i < num_points, "Invalid graph file: vertex index out of range.");
+            hg_assert(!vertex_found[i], "Invalid graph file: duplicated vertex.");
+            vertex_found[i] = true;
             vertex_weight(i) = d;
         }
 
@@ -83,6 +88,7 @@ namespace hg {
             index_t i, j;
             double d;
             in >> i >> j >> d;
+            hg_assert(!in.fail(), "Invalid graph file: incomplete edge list.");
             hg_assert(0 <= i && 0 <= j && i < num_points && j < num_points,
                       "Invalid graph file: vertex index out of range in edge definition.");
             g.add_edge(i, j);
-- 
2.43.0


From 3a10814207aba403f677c4b12863cd0d40382675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:46 +0000
Subject: [PATCH 078/116] fix: read_graph_pink: graphs without edges

save_graph_pink writes such graphs, but they could not be read.
---
 include/higra/io/pink_graph_io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/higra/io/pink_graph_io.hpp b/include/higra/io/pink_graph_io.hpp
index a0eef8f..d1b878f 100644
--- a/include/higra/io/pink_graph_io.hpp
+++ b/include/higra/io/pink_graph_io.hpp
@@ -53,7 +53,7 @@ namespace hg {
         hg_assert(!in.fail(), "Invalid graph file: incomplete header.");
 
         hg_assert(num_points > 0, "The number of vertices cannot be negative.");
-        hg_assert(num_edges > 0, "The number of edges cannot be negative.");
+        hg_assert(num_edges >= 0, "The number of edges cannot be negative.");
 
         if (shape.empty()) // construct valid shape
         {
-- 
2.43.0


From fd8f4b625bd0a1da7b239afdcdb0188a8a9c9e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:46 +0000
Subject: [PATCH 079/116] fix: save_graph_pink: weights were rounded to 6
 digits

---
 include/higra/io/pink_graph_io.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/higra/io/pink_graph_io.hpp b/include/higra/io/pink_graph_io.hpp
index d1b878f..f8a188c 100644
--- a/include/higra/io/pink_graph_io.hpp
+++ b/include/higra/io/pink_graph_io.hpp
@@ -14,6 +14,7 @@
 #include <istream>
 #include <ostream>
 #include <fstream>
+#include <limits>
 #include <string>
 #include <vector>
 #include "higra/structure/array.hpp"
@@ -136,6 +137,9 @@ namespace hg {
                 throw std::runtime_error("Too many dimensions !");
         }
 
+        // enough digits to recover the exact values
+        auto precision = out.precision(std::numeric_limits<double>::max_digits10);
+
         out << num_vertices(graph) << " " << num_edges(graph) << "\n";
 
         out << "val sommets\n";
@@ -164,6 +168,7 @@ namespace hg {
             }
         }
 
+        out.precision(precision);
     }
 
     template<typename graph_t,
-- 
2.43.0


From 16c74950ff7120c6d47475977a085eeb76eb0018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:46 +0000
Subject: [PATCH 080/116] fix: read_graph_pink: non finite weights

save_graph_pink writes inf and nan, which could not be read.
---
 include/higra/io/pink_graph_io.hpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/higra/io/pink_graph_io.hpp b/include/higra/io/pink_graph_io.hpp
index f8a188c..c476893 100644
--- a/include/higra/io/pink_graph_io.hpp
+++ b/include/higra/io/pink_graph_io.hpp
@@ -15,6 +15,7 @@
 #include <ostream>
 #include <fstream>
 #include <limits>
+#include <cstdlib>
 #include <string>
 #include <vector>
 #include "higra/structure/array.hpp"
@@ -32,6 +33,23 @@ namespace hg {
         B edge_weights;
     };
 
+    namespace pink_io_internal {
+        /**
+         * Read a floating point number, including the non finite values (inf, nan)
+         */
+        inline
+        double read_value(std::istream &in) {
+            std::string token;
+            in >> token;
+            char *end;
+            double value = std::strtod(token.c_str(), &end);
+            if (token.empty() || *end != '\0') {
+                in.setstate(std::ios::failbit);
+            }
+            return value;
+        }
+    }
+
     inline
     auto read_pink_graph(std::istream &in) {
         HG_TRACE();
@@ -71,8 +89,8 @@ namespace hg {
 
         for (index_t l = 0; l < num_points; ++l) {
             index_t i;
-            double d;
-            in >> i >> d;
+            in >> i;
+            double d = pink_io_internal::read_value(in);
             hg_assert(!in.fail(), "Invalid graph file: incomplete vertex list.");
             hg_assert(0 <= i && i < num_points, "Invalid graph file: vertex index out of range.");
             hg_assert(!vertex_found[i], "Invalid graph file: duplicated vertex.");
@@ -87,8 +105,8 @@ namespace hg {
 
         for (index_t l = 0; l < num_edges; ++l) {
             index_t i, j;
-            double d;
-            in >> i >> j >> d;
+            in >> i >> j;
+            double d = pink_io_internal::read_value(in);
             hg_assert(!in.fail(), "Invalid graph file: incomplete edge list.");
             hg_assert(0 <= i && 0 <= j && i < num_points && j < num_points,
                       "Invalid graph file: vertex index out of range in edge definition.");
-- 
2.43.0


From f85ff8c2cc9c91b7d8244a7fa82c52daed520578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:56 +0000
Subject: [PATCH 081/116] fix: scipy_linkage_matrix_to_binary_hierarchy:
 invalid linkage matrices are rejected

Cluster indices out of range were written out of the bounds of the parent array,
and a cluster merged twice left another one without a parent.
---
 higra/interop/py_scipy.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/higra/interop/py_scipy.cpp b/higra/interop/py_scipy.cpp
index bc86f41..34abc0f 100644
--- a/higra/interop/py_scipy.cpp
+++ b/higra/interop/py_scipy.cpp
@@ -60,12 +60,18 @@ namespace py_scipy {
 
         xt::view(altitudes, xt::range(0, n_leaves)) = 0;
         xt::view(area, xt::range(0, n_leaves)) = 1;
+        parents.fill(invalid_index);
         parents(n_nodes - 1) = n_nodes - 1;
 
         for (index_t i = 0; i < n_leaves - 1; i++) {
             index_t n = i + n_leaves;
-            parents(static_cast<index_t>(linkage_matrix(i, 0))) = n;
-            parents(static_cast<index_t>(linkage_matrix(i, 1))) = n;
+            for (index_t j = 0; j < 2; j++) {
+                hg_assert(linkage_matrix(i, j) >= 0 && linkage_matrix(i, j) < n,
+                          "Invalid linkage matrix: cluster index out of range.");
+                index_t c = static_cast<index_t>(linkage_matrix(i, j));
+                hg_assert(parents(c) == invalid_index, "Invalid linkage matrix: a cluster is merged twice.");
+                parents(c) = n;
+            }
             altitudes(n) = linkage_matrix(i, 2);
             area(n) = static_cast<index_t>(linkage_matrix(i, 3));
         }
-- 
2.43.0


From 68d30640dd1e8d601c8f10adb0a1ae30a200d758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:09 +0000
Subject: [PATCH 082/116] fix: attributes and tags were shared between an
 object and its copies (copy.copy)

Attributes set on (or cleared from) a copied graph or tree appeared on (or
disappeared from) the original object.
---
 higra/data_cache.py                 | 15 +++++++++++++++
 higra/structure/embedding.py        |  2 +-
 higra/structure/lca_fast.py         |  4 ++--
 higra/structure/regular_graph.py    |  2 +-
 higra/structure/tree_graph.py       |  2 +-
 higra/structure/undirected_graph.py |  2 +-
 6 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/higra/data_cache.py b/higra/data_cache.py
index fe833cc..8cfd744 100644
--- a/higra/data_cache.py
+++ b/higra/data_cache.py
@@ -149,6 +149,21 @@ def __get_attributes(key):
         return hg.__higra_global_cache.get_data(key)
 
 
+def get_object_state(obj):
+    """
+    State of an Higra object to be used for pickling and copying: the attributes and the tags of the object are
+    duplicated so that they are not shared between the object and its (shallow) copies.
+
+    :param obj: an object
+    :return: a dictionary
+    """
+    state = dict(obj.__dict__)
+    for name in ("__higra_attributes__", "__higra_tags__"):
+        if name in state:
+            state[name] = state[name].copy()
+    return state
+
+
 def list_attributes(key):
     """
     List all Higra attributes of the object :attr:`key`.
diff --git a/higra/structure/embedding.py b/higra/structure/embedding.py
index 6115b23..f5d3104 100644
--- a/higra/structure/embedding.py
+++ b/higra/structure/embedding.py
@@ -17,4 +17,4 @@ import higra as hg
 @hg.extend_class(hg.EmbeddingGrid4d, method_name="__reduce__")
 @hg.extend_class(hg.EmbeddingGrid5d, method_name="__reduce__")
 def ____reduce__(self):
-    return self.__class__, (self.shape(),), self.__dict__
+    return self.__class__, (self.shape(),), hg.get_object_state(self)
diff --git a/higra/structure/lca_fast.py b/higra/structure/lca_fast.py
index 912e05d..2aebbc3 100644
--- a/higra/structure/lca_fast.py
+++ b/higra/structure/lca_fast.py
@@ -31,12 +31,12 @@ def __reduce_ctr_lca_stb(*args):
 
 @hg.extend_class(hg.LCA_rmq_sparse_table, method_name="__reduce__")
 def ____reduce__(self):
-    return __reduce_ctr_lca_st, self._get_state(), self.__dict__
+    return __reduce_ctr_lca_st, self._get_state(), hg.get_object_state(self)
 
 
 @hg.extend_class(hg.LCA_rmq_sparse_table_block, method_name="__reduce__")
 def ____reduce__(self):
-    return __reduce_ctr_lca_stb, self._get_state(), self.__dict__
+    return __reduce_ctr_lca_stb, self._get_state(), hg.get_object_state(self)
 
 
 LCAFast = hg.LCA_rmq_sparse_table_block
diff --git a/higra/structure/regular_graph.py b/higra/structure/regular_graph.py
index 06c3cf7..0f92613 100644
--- a/higra/structure/regular_graph.py
+++ b/higra/structure/regular_graph.py
@@ -17,7 +17,7 @@ import higra as hg
 @hg.extend_class(hg.RegularGraph4d, method_name="__reduce__")
 @hg.extend_class(hg.RegularGraph5d, method_name="__reduce__")
 def ____reduce__(self):
-    return self.__class__, (self.shape, self.neighbour_list()), self.__dict__
+    return self.__class__, (self.shape, self.neighbour_list()), hg.get_object_state(self)
 
 
 @hg.extend_class(hg.RegularGraph1d, method_name="as_explicit_graph")
diff --git a/higra/structure/tree_graph.py b/higra/structure/tree_graph.py
index 11cd13f..a4b4a56 100644
--- a/higra/structure/tree_graph.py
+++ b/higra/structure/tree_graph.py
@@ -85,7 +85,7 @@ def __num_children(self, vertex=None):
 
 @hg.extend_class(hg.Tree, method_name="__reduce__")
 def ____reduce__(self):
-    return self.__class__, (self.parents(), self.category()), self.__dict__
+    return self.__class__, (self.parents(), self.category()), hg.get_object_state(self)
 
 
 @hg.extend_class(hg.Tree, method_name="lowest_common_ancestor_preprocess")
diff --git a/higra/structure/undirected_graph.py b/higra/structure/undirected_graph.py
index 7118c6a..d9f7092 100644
--- a/higra/structure/undirected_graph.py
+++ b/higra/structure/undirected_graph.py
@@ -24,7 +24,7 @@ def __reduce_ctr(num_vertices, sources, targets):
 
 @hg.extend_class(hg.UndirectedGraph, method_name="__reduce__")
 def ____reduce__(self):
-    return __reduce_ctr, (self.num_vertices(), *self.edge_list()), self.__dict__
+    return __reduce_ctr, (self.num_vertices(), *self.edge_list()), hg.get_object_state(self)
 
 
 @hg.extend_class(hg.UndirectedGraph, method_name="sources")
-- 
2.43.0


From 556bce6e3108aa75a889ac2e159a0bcba6832098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:45 +0000
Subject: [PATCH 083/116] fix: fibonacci heap: move assignment returned nothing
 and lost the current elements

---
 include/higra/structure/fibonacci_heap.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/higra/structure/fibonacci_heap.hpp b/include/higra/structure/fibonacci_heap.hpp
index 00eb56a..1f9969b 100644
--- a/include/higra/structure/fibonacci_heap.hpp
+++ b/include/higra/structure/fibonacci_heap.hpp
@@ -166,10 +166,14 @@ namespace hg {
             }
 
             fibonacci_heap &operator=(fibonacci_heap &&other) {
-                m_heap = other.m_heap;
-                m_size = other.m_size;
-                other.m_heap = nullptr;
-                other.m_size = 0;
+                if (this != &other) {
+                    clear();
+                    m_heap = other.m_heap;
+                    m_size = other.m_size;
+                    other.m_heap = nullptr;
+                    other.m_size = 0;
+                }
+                return *this;
             }
 
             /**
-- 
2.43.0


From de9a77603f5a10c6af13bff09aca962f524bb2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:11 +0000
Subject: [PATCH 084/116] fix: read_image_pnm: missing or truncated files
 (infinite loop or undefined pixels)

---
 include/higra/io/pnm_io.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/higra/io/pnm_io.hpp b/include/higra/io/pnm_io.hpp
index fe651c6..848974f 100644
--- a/include/higra/io/pnm_io.hpp
+++ b/include/higra/io/pnm_io.hpp
@@ -37,7 +37,7 @@ namespace hg {
             std::string next_token() {
                 if (m_stream.eof()) {
                     do {
-                        if (m_in.eof())
+                        if (!m_in.good())
                             return "";
                         std::getline(m_in, m_current_line);
                     } while (m_current_line.size() == 0 || m_current_line[0] == '#');
@@ -152,6 +152,7 @@ namespace hg {
                     hg_assert(false, "Binary raw data not supported.");
                 } else {
                     in.read((char*)result.data(), num_values);
+                    hg_assert(in.gcount() == num_values, "End of data reached too soon.");
                 }
             }
             return result;
@@ -198,6 +199,7 @@ namespace hg {
     inline
     array_nd<unsigned char> read_image_pnm(const char *filename) {
         std::ifstream s(filename);
+        hg_assert(s.is_open(), "Cannot open file: " + std::string(filename));
         return pnm_io_internal::read_image_pnm(s);
     }
 
-- 
2.43.0


From a07b1200f8e03da6e495fa89e747598ae8424f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:11 +0000
Subject: [PATCH 085/116] fix: read_image_pnm: a first pixel equal to '#' was
 taken for a comment

---
 include/higra/io/pnm_io.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/higra/io/pnm_io.hpp b/include/higra/io/pnm_io.hpp
index 848974f..a934a36 100644
--- a/include/higra/io/pnm_io.hpp
+++ b/include/higra/io/pnm_io.hpp
@@ -20,6 +20,8 @@
 #include <sstream>
 #include <string>
 #include <fstream>
+#include <iterator>
+#include <algorithm>
 
 namespace hg {
 
@@ -143,16 +145,20 @@ namespace hg {
                     r(i) = std::stoi(tmp);
                 }
             } else {
-                //consume remaining comments
-                while(in.peek() == '#'){
-                    std::string tmp;
-                    std::getline(in, tmp);
-                }
                 if (binary) {
                     hg_assert(false, "Binary raw data not supported.");
                 } else {
-                    in.read((char*)result.data(), num_values);
-                    hg_assert(in.gcount() == num_values, "End of data reached too soon.");
+                    std::string data((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
+                    // skip remaining comments: a comment leaves enough data for the whole image
+                    size_t start = 0;
+                    while (start < data.size() && data[start] == '#') {
+                        auto eol = data.find('\n', start);
+                        if (eol == std::string::npos || data.size() - (eol + 1) < (size_t) num_values)
+                            break;
+                        start = eol + 1;
+                    }
+                    hg_assert(data.size() - start >= (size_t) num_values, "End of data reached too soon.");
+                    std::copy_n(data.begin() + start, num_values, (char *) result.data());
                 }
             }
             return result;
-- 
2.43.0


From c7fcad850889c8b4cb1bf468c23cc59263150b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:11 +0000
Subject: [PATCH 086/116] fix: save_image_pnm: images that are not stored
 contiguously in row major order

---
 include/higra/io/pnm_io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/higra/io/pnm_io.hpp b/include/higra/io/pnm_io.hpp
index a934a36..936384d 100644
--- a/include/higra/io/pnm_io.hpp
+++ b/include/higra/io/pnm_io.hpp
@@ -168,7 +168,7 @@ namespace hg {
         template<typename T>
         void save_image_pnm(std::ostream &out, const xt::xexpression<T> &ximage) {
             static_assert(std::is_same<typename T::value_type, unsigned char>::value, "Can only save unsigned char values");
-            auto &image = ximage.derived_cast();
+            const array_nd<unsigned char> image = ximage.derived_cast();
             hg_assert(image.dimension() == 2 || image.dimension() == 3, "Array must have 2 or 3 dimensions.");
             hg_assert(image.dimension() == 2 || image.shape()[2] == 3,
                       "The size of the 3rd dimension must be 3 (RGB value).");
-- 
2.43.0


From 3781e3a5796b70db8542a112eaa378b4fdaf221b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:11 +0000
Subject: [PATCH 087/116] fix: save_image_pnm: files that cannot be written are
 reported

---
 include/higra/io/pnm_io.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/higra/io/pnm_io.hpp b/include/higra/io/pnm_io.hpp
index 936384d..8bf8112 100644
--- a/include/higra/io/pnm_io.hpp
+++ b/include/higra/io/pnm_io.hpp
@@ -225,6 +225,9 @@ namespace hg {
     template<typename T>
     void save_image_pnm(const char *filename, const xt::xexpression<T> &ximage) {
         std::ofstream s(filename);
-        return pnm_io_internal::save_image_pnm(s, ximage);
+        hg_assert(s.is_open(), "Cannot open file: " + std::string(filename));
+        pnm_io_internal::save_image_pnm(s, ximage);
+        s.close();
+        hg_assert(s.good(), "Cannot write file: " + std::string(filename));
     }
 }
\ No newline at end of file
-- 
2.43.0


From b45ac75cb23483e8ae23bea03ad6c610e3eb8020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:13 +0000
Subject: [PATCH 088/116] fix: hg.sort: arrays whose type is not native, read
 only arrays, and 2d arrays

---
 higra/sorting.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/higra/sorting.py b/higra/sorting.py
index 5c8da78..b675a95 100644
--- a/higra/sorting.py
+++ b/higra/sorting.py
@@ -9,6 +9,7 @@
 ############################################################################
 
 import higra as hg
+import numpy as np
 
 
 def sort(array, stable=False):
@@ -29,12 +30,24 @@ def sort(array, stable=False):
     :param stable: if ``True``, a stable sort is performed.
     :return: nothing
     """
-    if stable:
+    if not isinstance(array, np.ndarray) or not array.flags.writeable:
+        raise ValueError("Array must be a writeable numpy array: it is sorted inplace.")
+
+    if array.ndim == 2 or not __is_native_array(array):
+        # lexicographic sort or array that would be copied when passed to the c++ function: no inplace processing
+        native = np.require(array, dtype=array.dtype.newbyteorder("="), requirements="A")
+        array[...] = array[arg_sort(native, stable)]
+    elif stable:
         return hg.cpp._stable_sort(array)
     else:
         return hg.cpp._sort(array)
 
 
+def __is_native_array(array):
+    return array.dtype.isnative and array.flags.aligned and array.dtype.kind in "iuf" \
+           and not (array.dtype.kind == "f" and array.dtype.itemsize not in (4, 8))
+
+
 def arg_sort(array, stable=False):
     """
     Returns the indices that would sort an array. A parallel algorithm is used if possible.
-- 
2.43.0


From f290d0c05b99d1b219abe9b533a87a0bdc2d11d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:21 +0000
Subject: [PATCH 089/116] fix: copy of non contiguous arrays read out of bounds
 (attributes of save_tree)

---
 lib/include/xtensor-python/pyarray.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/include/xtensor-python/pyarray.hpp b/lib/include/xtensor-python/pyarray.hpp
index a025e35..4dc5204 100644
--- a/lib/include/xtensor-python/pyarray.hpp
+++ b/lib/include/xtensor-python/pyarray.hpp
@@ -416,7 +416,11 @@ namespace xt
 
         this->m_ptr = tmp.release().ptr();
         init_from_python();
-        std::copy(rhs.storage().cbegin(), rhs.storage().cend(), this->storage().begin());
+        // rhs may not be stored contiguously
+        if (PyArray_CopyInto(this->python_array(), rhs.python_array()) != 0)
+        {
+            throw pybind11::error_already_set();
+        }
     }
 
     /**
-- 
2.43.0


From c661df963962b96dde78f3cd2e9ce7a195b18e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:36 +0000
Subject: [PATCH 090/116] fix: irange and tree traversals enumerated nodes
 outside of empty ranges

---
 include/higra/structure/details/iterators.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/higra/structure/details/iterators.hpp b/include/higra/structure/details/iterators.hpp
index f537793..c098383 100644
--- a/include/higra/structure/details/iterators.hpp
+++ b/include/higra/structure/details/iterators.hpp
@@ -273,7 +273,12 @@ namespace hg {
         irange(value_type start, value_type stop, value_type step = 1) :
                 m_start(start),
                 m_step(step) {
-            auto num_steps = std::abs(m_start - stop) / std::abs(m_step);
+            value_type num_steps = 0;
+            if (step > 0 && start < stop) {
+                num_steps = (stop - start + step - 1) / step;
+            } else if (step < 0 && start > stop) {
+                num_steps = (stop - start + step + 1) / step;
+            }
             m_stop = m_start + num_steps * m_step;
         }
 
-- 
2.43.0


From daab043708df0fd47002d0d089a89133643112f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:30 +0000
Subject: [PATCH 091/116] fix: auto_cache: mistook empty and non empty
 containers of different types

A tuple and a list (or two dictionaries) with the same elements were considered as the same argument.
---
 higra/data_cache.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/higra/data_cache.py b/higra/data_cache.py
index 8cfd744..3514dfd 100644
--- a/higra/data_cache.py
+++ b/higra/data_cache.py
@@ -468,11 +468,12 @@ def __flatten_arguments(o, result):
     :return: nothing
     """
     if isinstance(o, dict):
+        result.extend((type(o), len(o)))
         for k, v in sorted(o.items(), key=lambda kv: __make_key(kv[0])):
             __flatten_arguments(k, result)
             __flatten_arguments(v, result)
     elif isinstance(o, (set, tuple, list)):
-        result.append(len(o))
+        result.extend((type(o), len(o)))
         for e in (sorted(o, key=__make_key) if isinstance(o, set) else o):
             __flatten_arguments(e, result)
     else:
-- 
2.43.0


From ca1ac8bcadc17d9c8d5573a8e14c0a43fd280086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:37 +0000
Subject: [PATCH 092/116] fix: attributes and propagations on an empty tree
 wrote out of bounds

---
 include/higra/accumulator/tree_accumulator.hpp | 12 ++++++++++++
 include/higra/attribute/tree_attribute.hpp     | 11 +++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/higra/accumulator/tree_accumulator.hpp b/include/higra/accumulator/tree_accumulator.hpp
index 4482be6..f2c4f19 100644
--- a/include/higra/accumulator/tree_accumulator.hpp
+++ b/include/higra/accumulator/tree_accumulator.hpp
@@ -335,6 +335,10 @@ namespace hg {
 
             auto aparents = parents(tree).linear_begin();
 
+            if (num_vertices(tree) == 0) {
+                return output;
+            }
+
             // root cannot be deleted
             output_view.set_position(root(tree));
             input_view.set_position(root(tree));
@@ -382,6 +386,10 @@ namespace hg {
 
             auto aparents = parents(tree).linear_begin();
             auto acc = accumulator.template make_accumulator<vectorial>(output_view);
+            if (num_vertices(tree) == 0) {
+                return output;
+            }
+
             // root cannot be deleted
             output_view.set_position(root(tree));
             input_view.set_position(root(tree));
@@ -440,6 +448,10 @@ namespace hg {
 
             auto aparents = parents(tree).linear_begin();
             auto acc = accumulator.template make_accumulator<vectorial>(output_view);
+            if (num_vertices(tree) == 0) {
+                return output;
+            }
+
             // root cannot be deleted
             output_view.set_position(root(tree));
             input_view.set_position(root(tree));
diff --git a/include/higra/attribute/tree_attribute.hpp b/include/higra/attribute/tree_attribute.hpp
index 391f3b0..0697cc8 100644
--- a/include/higra/attribute/tree_attribute.hpp
+++ b/include/higra/attribute/tree_attribute.hpp
@@ -95,6 +95,9 @@ namespace hg {
     template<typename tree_t>
     auto attribute_depth(const tree_t &tree) {
         array_1d<index_t> depth = xt::empty<index_t>({tree.num_vertices()});
+        if (tree.num_vertices() == 0) {
+            return depth;
+        }
         depth(tree.root()) = 0;
         for (auto i: root_to_leaves_iterator(tree, leaves_it::include, root_it::exclude)) {
             depth(i) = depth(parent(i, tree)) + 1;
@@ -404,7 +407,9 @@ namespace hg {
                 attribute(child(i, n, tree)) = child(j, n, tree);
             }
         }
-        attribute(root(tree)) = root(tree);
+        if (num_vertices(tree) > 0) {
+            attribute(root(tree)) = root(tree);
+        }
         return attribute;
     }
 
@@ -482,7 +487,9 @@ namespace hg {
                 res(cc) = c;
             }
         }
-        res(root(tree)) = invalid_index;
+        if (num_vertices(tree) > 0) {
+            res(root(tree)) = invalid_index;
+        }
         return res;
     }
 
-- 
2.43.0


From 3f088d7d661defc23f45079f83794c946fb349ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:37 +0000
Subject: [PATCH 093/116] fix: horizontal cuts: altitudes of invalid size or
 dimension caused out of bounds accesses

---
 include/higra/algo/horizontal_cuts.hpp | 1 +
 include/higra/algo/tree.hpp            | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/include/higra/algo/horizontal_cuts.hpp b/include/higra/algo/horizontal_cuts.hpp
index 9f43b10..bfb30c7 100644
--- a/include/higra/algo/horizontal_cuts.hpp
+++ b/include/higra/algo/horizontal_cuts.hpp
@@ -72,6 +72,7 @@ namespace hg {
                 m_original_tree(tree) {
             auto &altitudes = xaltitudes.derived_cast();
             hg_assert_node_weights(tree, altitudes);
+            hg_assert_1d_array(altitudes);
 
             hg_assert(xt::count_nonzero(xt::view(altitudes, xt::range(0, num_leaves(tree))))() == 0,
                       "The altitude of the leaf nodes must be equal to 0.");
diff --git a/include/higra/algo/tree.hpp b/include/higra/algo/tree.hpp
index 20452f5..b7856fe 100644
--- a/include/higra/algo/tree.hpp
+++ b/include/higra/algo/tree.hpp
@@ -72,6 +72,8 @@ namespace hg {
                                                     const value_t threshold) {
         HG_TRACE();
         auto &altitudes = xaltitudes.derived_cast();
+        hg_assert_node_weights(tree, altitudes);
+        hg_assert_1d_array(altitudes);
         using altitude_type = typename T::value_type;
         // the threshold may not be representable with an integral type
         using compare_type = std::conditional_t<std::is_floating_point<altitude_type>::value,
-- 
2.43.0


From d436b2cc6cb275a8de1027f1fa79d13249392656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:37 +0000
Subject: [PATCH 094/116] fix: fibonacci heap: NaN values corrupted the heap
 (binary partition trees)

---
 include/higra/structure/fibonacci_heap.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/higra/structure/fibonacci_heap.hpp b/include/higra/structure/fibonacci_heap.hpp
index 1f9969b..a9fef04 100644
--- a/include/higra/structure/fibonacci_heap.hpp
+++ b/include/higra/structure/fibonacci_heap.hpp
@@ -469,7 +469,8 @@ namespace hg {
                     m_cut(node, parent);
                     m_cascading_cut(parent);
                 }
-                if (node->m_value < m_heap->m_value)
+                // the minimum is a root of the heap (even with values, such as NaN, that are not ordered)
+                if (node->m_parent == nullptr && node->m_value < m_heap->m_value)
                     m_heap = node;
             }
 
-- 
2.43.0


From 8915e0850863b6861bd0f308b8ee082667ef1029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:37 +0000
Subject: [PATCH 095/116] fix: assess_partition and fragmentation curves:
 invalid labels caused out of bounds accesses

---
 .../higra/assessment/fragmentation_curve.hpp  | 27 ++++++++++++++-----
 include/higra/assessment/partition.hpp        |  3 +++
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/include/higra/assessment/fragmentation_curve.hpp b/include/higra/assessment/fragmentation_curve.hpp
index 51ecd90..a4ebc7d 100644
--- a/include/higra/assessment/fragmentation_curve.hpp
+++ b/include/higra/assessment/fragmentation_curve.hpp
@@ -81,6 +81,24 @@ namespace hg {
     };
 
     namespace fragmentation_curve_internal {
+
+        template<typename tree_t, typename T>
+        void check_ground_truth(const tree_t &tree,
+                                const T &ground_truth,
+                                const array_1d<index_t> &vertex_map) {
+            hg_assert_1d_array(ground_truth);
+            hg_assert(ground_truth.size() > 0, "The ground truth cannot be empty.");
+            hg_assert((xt::amin)(ground_truth)() >= 0, "Labels cannot be negative.");
+            if (vertex_map.size() <= 1) { // no rag
+                hg_assert_leaf_weights(tree, ground_truth);
+            } else { // tree on rag
+                hg_assert(vertex_map.size() == ground_truth.size(), "Vertex map and ground truth sizes do not match.");
+                hg_assert((xt::amin)(vertex_map)() >= 0 &&
+                          (xt::amax)(vertex_map)() < (index_t) num_leaves(tree),
+                          "Vertex map values must be leaves of the tree.");
+            }
+        }
+
         struct dynamic_node {
             size_t k; // number of regions
             double score;
@@ -94,17 +112,15 @@ namespace hg {
                 const xt::xexpression<T> &xground_truth,
                 const array_1d<index_t> &vertex_map = {}) {
             auto &ground_truth = xground_truth.derived_cast();
-            hg_assert_1d_array(ground_truth);
+            check_ground_truth(tree, ground_truth, vertex_map);
 
             auto num_regions_ground_truth = xt::amax(ground_truth)() + 1;
             array_2d<index_t> card_intersection_leaves({num_leaves(tree), (size_t) num_regions_ground_truth}, 0);
             if (vertex_map.size() <= 1) { // no rag
-                hg_assert_leaf_weights(tree, ground_truth);
                 for (auto i: leaves_iterator(tree)) {
                     card_intersection_leaves(i, ground_truth(i))++;
                 }
             } else { // tree on rag
-                hg_assert(vertex_map.size() == ground_truth.size(), "Vertex map and ground truth sizes do not match.");
                 for (index_t i = 0; i < (index_t) vertex_map.size(); i++) {
                     card_intersection_leaves(vertex_map(i), ground_truth(i))++;
                 }
@@ -149,8 +165,9 @@ namespace hg {
                 m_tree(tree) {
             auto &ground_truth = xground_truth.derived_cast();
 
-            hg_assert_1d_array(ground_truth);
             hg_assert_integral_value_type(ground_truth);
+            fragmentation_curve_internal::check_ground_truth(tree, ground_truth, vertex_map);
+            hg_assert(max_regions > 0, "The maximum number of regions must be greater than 0.");
 
             m_tree.compute_children();
 
@@ -175,13 +192,11 @@ namespace hg {
             // for a tree node i, a gt region j: card_intersection(i, j) is the number of pixels in R_i cap R_j
             array_2d<index_t> card_intersection_leaves{{num_leaves(m_tree), region_gt_areas.size()}, 0};
             if (vertex_map.size() <= 1) { // no rag
-                hg_assert_leaf_weights(m_tree, ground_truth);
                 for (auto i: leaves_iterator(m_tree)) {
                     card_intersection_leaves(i, ground_truth(i))++;
                 }
                 region_tree_area = attribute_area(m_tree);
             } else { // tree on rag
-                hg_assert(vertex_map.size() == ground_truth.size(), "Vertex map and ground truth sizes do not match.");
                 for (index_t i = 0; i < (index_t) vertex_map.size(); i++) {
                     card_intersection_leaves(vertex_map(i), ground_truth(i))++;
                 }
diff --git a/include/higra/assessment/partition.hpp b/include/higra/assessment/partition.hpp
index d7dc6dd..e184819 100644
--- a/include/higra/assessment/partition.hpp
+++ b/include/higra/assessment/partition.hpp
@@ -30,6 +30,9 @@ namespace hg {
 
         hg_assert_integral_value_type(candidate);
         hg_assert_integral_value_type(ground_truths);
+        hg_assert(candidate.size() > 0 && ground_truths.size() > 0, "Labelisations cannot be empty.");
+        hg_assert((xt::amin)(candidate)() >= 0 && (xt::amin)(ground_truths)() >= 0,
+                  "Labels cannot be negative.");
 
         std::vector<array_2d<value_type>> result;
         auto num_regions_candidate = xt::amax(candidate)() + 1;
-- 
2.43.0


From b3c9357159cd5caee7a59e4b8543082f6895c391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:37 +0000
Subject: [PATCH 096/116] fix: empty arrays of vertex or edge indices were read
 out of bounds

---
 include/higra/utils.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/higra/utils.hpp b/include/higra/utils.hpp
index 9257181..2c6ecfa 100644
--- a/include/higra/utils.hpp
+++ b/include/higra/utils.hpp
@@ -109,9 +109,9 @@ namespace hg {
     } while (0)
 
 #define hg_assert_vertex_indices(graph, vertex_indices) do { \
-    hg_assert((xt::amin)(vertex_indices)() >= 0, \
+    hg_assert(vertex_indices.size() == 0 || (xt::amin)(vertex_indices)() >= 0, \
               "Vertex indices cannot be negative.");\
-    hg_assert((hg::index_t)(xt::amax)(vertex_indices)() < (hg::index_t)hg::num_vertices(graph), "Vertex indices must be smaller than the number of vertices in the graph/tree.");\
+    hg_assert(vertex_indices.size() == 0 || (hg::index_t)(xt::amax)(vertex_indices)() < (hg::index_t)hg::num_vertices(graph), "Vertex indices must be smaller than the number of vertices in the graph/tree.");\
     } while (0)
 
 #define hg_assert_vertex_index(graph, vertex_index) do { \
@@ -121,9 +121,9 @@ namespace hg {
     } while (0)
 
 #define hg_assert_edge_indices(graph, edge_indices) do { \
-    hg_assert((xt::amin)(edge_indices)() >= 0, \
+    hg_assert(edge_indices.size() == 0 || (xt::amin)(edge_indices)() >= 0, \
               "Edge indices cannot be negative.");\
-    hg_assert((hg::index_t)(xt::amax)(edge_indices)() < (hg::index_t)hg::num_edges(graph), "Edge indices must be smaller than the number of edges in the graph/tree.");\
+    hg_assert(edge_indices.size() == 0 || (hg::index_t)(xt::amax)(edge_indices)() < (hg::index_t)hg::num_edges(graph), "Edge indices must be smaller than the number of edges in the graph/tree.");\
     } while (0)
 
 #define hg_assert_edge_index(graph, edge_index) do { \
-- 
2.43.0


From 568a4ae7c5d46f913e7bce9a599f6370e81fa661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:37 +0000
Subject: [PATCH 097/116] fix: hierarchical watersheds: attributes of invalid
 size or dimension caused out of bounds accesses

---
 include/higra/hierarchy/watershed_hierarchy.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/higra/hierarchy/watershed_hierarchy.hpp b/include/higra/hierarchy/watershed_hierarchy.hpp
index 69464e1..9ae95c5 100644
--- a/include/higra/hierarchy/watershed_hierarchy.hpp
+++ b/include/higra/hierarchy/watershed_hierarchy.hpp
@@ -25,6 +25,8 @@ namespace hg {
                                    const T1 &altitude,
                                    const T2 &attribute) {
             using value_type = typename T2::value_type;
+            hg_assert_node_weights(tree, attribute);
+            hg_assert_1d_array(attribute);
             tree.compute_children();
             array_1d<value_type> result = xt::empty_like(attribute);
             for (auto n: leaves_iterator(tree)) {
-- 
2.43.0


From c0b4b53c3e83a8a5683b664c329c96badc16d8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:02 +0000
Subject: [PATCH 098/116] fix: empty arrays given to bipartite, lca and bpt
 functions were read out of bounds

---
 higra/algo/py_bipartite_graph.cpp     | 16 ++++++++--------
 higra/hierarchy/py_hierarchy_core.cpp | 12 ++++++------
 higra/structure/py_lca_fast.cpp       |  8 ++++----
 higra/structure/py_tree_graph.cpp     |  2 +-
 4 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/higra/algo/py_bipartite_graph.cpp b/higra/algo/py_bipartite_graph.cpp
index 95ab43a..4fe39f0 100644
--- a/higra/algo/py_bipartite_graph.cpp
+++ b/higra/algo/py_bipartite_graph.cpp
@@ -38,11 +38,11 @@ namespace py_bipartite_graph {
 
         m.def("_is_bipartite_graph",
               [](const pytensor_1d<index_t> &sources, const pytensor_1d<index_t> &targets, index_t num_vertices) {
-                  hg_assert((xt::amin)(sources)() >= 0, "Source vertex index cannot be negative.");
-                  hg_assert((xt::amin)(targets)() >= 0, "Target vertex index cannot be negative.");
-                  hg_assert((xt::amax)(sources)() < num_vertices,
+                  hg_assert(sources.size() == 0 || (xt::amin)(sources)() >= 0, "Source vertex index cannot be negative.");
+                  hg_assert(targets.size() == 0 || (xt::amin)(targets)() >= 0, "Target vertex index cannot be negative.");
+                  hg_assert(sources.size() == 0 || (xt::amax)(sources)() < num_vertices,
                             "Source vertex index must be less than the number of vertices.");
-                  hg_assert((xt::amax)(targets)() < num_vertices,
+                  hg_assert(targets.size() == 0 || (xt::amax)(targets)() < num_vertices,
                             "Target vertex index must be less than the number of vertices.");
                   return hg::is_bipartite_graph(sources, targets, num_vertices);
               },
@@ -57,11 +57,11 @@ namespace py_bipartite_graph {
                       const pytensor_1d<index_t> &targets,
                       index_t num_vertices,
                       const pytensor_1d<index_t> &weights) {
-                  hg_assert((xt::amin)(sources)() >= 0, "Source vertex index cannot be negative.");
-                  hg_assert((xt::amin)(targets)() >= 0, "Target vertex index cannot be negative.");
-                  hg_assert((xt::amax)(sources)() < num_vertices,
+                  hg_assert(sources.size() == 0 || (xt::amin)(sources)() >= 0, "Source vertex index cannot be negative.");
+                  hg_assert(targets.size() == 0 || (xt::amin)(targets)() >= 0, "Target vertex index cannot be negative.");
+                  hg_assert(sources.size() == 0 || (xt::amax)(sources)() < num_vertices,
                             "Source vertex index must be less than the number of vertices.");
-                  hg_assert((xt::amax)(targets)() < num_vertices,
+                  hg_assert(targets.size() == 0 || (xt::amax)(targets)() < num_vertices,
                             "Target vertex index must be less than the number of vertices.");
                   hg::graph_algorithms::CSA csa(sources, targets, num_vertices, weights);
                   return csa.edge_indices();
diff --git a/higra/hierarchy/py_hierarchy_core.cpp b/higra/hierarchy/py_hierarchy_core.cpp
index e12541b..c539d6e 100644
--- a/higra/hierarchy/py_hierarchy_core.cpp
+++ b/higra/hierarchy/py_hierarchy_core.cpp
@@ -60,14 +60,14 @@ namespace py_hierarchy_core {
                                    const xt::pytensor<hg::index_t, 1> &sorted_edge_indices,
                                    const hg::index_t num_vertices) {
             hg_assert(num_vertices >= 0, "Number of vertices must be a positive number.");
-            hg_assert((xt::amin)(sources)() >= 0, "Source vertex index cannot be negative.");
-            hg_assert((xt::amin)(targets)() >= 0, "Target vertex index cannot be negative.");
-            hg_assert((xt::amin)(sorted_edge_indices)() >= 0, "Edge index cannot be negative.");
-            hg_assert((xt::amax)(sources)() < num_vertices,
+            hg_assert(sources.size() == 0 || (xt::amin)(sources)() >= 0, "Source vertex index cannot be negative.");
+            hg_assert(targets.size() == 0 || (xt::amin)(targets)() >= 0, "Target vertex index cannot be negative.");
+            hg_assert(sorted_edge_indices.size() == 0 || (xt::amin)(sorted_edge_indices)() >= 0, "Edge index cannot be negative.");
+            hg_assert(sources.size() == 0 || (xt::amax)(sources)() < num_vertices,
                       "Source vertex index must be less than the number of vertices.");
-            hg_assert((xt::amax)(targets)() < num_vertices,
+            hg_assert(targets.size() == 0 || (xt::amax)(targets)() < num_vertices,
                       "Target vertex index must be less than the number of vertices.");
-            hg_assert((xt::amax)(sorted_edge_indices)() < (hg::index_t) sorted_edge_indices.size(),
+            hg_assert(sorted_edge_indices.size() == 0 || (xt::amax)(sorted_edge_indices)() < (hg::index_t) sorted_edge_indices.size(),
                       "Edge index must be smaller than the number of edges in the graph/tree.");
             auto res = hg::hierarchy_core_internal::bpt_canonical_from_sorted_edges(sources, targets,
                                                                                     sorted_edge_indices,
diff --git a/higra/structure/py_lca_fast.cpp b/higra/structure/py_lca_fast.cpp
index 793034f..8b920c6 100644
--- a/higra/structure/py_lca_fast.cpp
+++ b/higra/structure/py_lca_fast.cpp
@@ -33,11 +33,11 @@ namespace py_lca_fast {
             c.def("lca", [](const lca_t &l,
                             const pyarray<value_t> &vertices1,
                             const pyarray<value_t> &vertices2) {
-                      hg_assert((xt::amin)(vertices1)() >= 0, "Vertex indices cannot be negative.");
-                      hg_assert((index_t) (index_t) (xt::amax)(vertices1)() < (index_t) l.num_elements(),
+                      hg_assert(vertices1.size() == 0 || (xt::amin)(vertices1)() >= 0, "Vertex indices cannot be negative.");
+                      hg_assert(vertices1.size() == 0 || (index_t) (index_t) (xt::amax)(vertices1)() < (index_t) l.num_elements(),
                                 "Vertex indices must be smaller than the number of vertices in the tree.");
-                      hg_assert((xt::amin)(vertices2)() >= 0, "Vertex indices cannot be negative.");
-                      hg_assert((index_t) (xt::amax)(vertices2)() < (index_t) l.num_elements(),
+                      hg_assert(vertices2.size() == 0 || (xt::amin)(vertices2)() >= 0, "Vertex indices cannot be negative.");
+                      hg_assert(vertices2.size() == 0 || (index_t) (xt::amax)(vertices2)() < (index_t) l.num_elements(),
                                 "Vertex indices must be smaller than the number of vertices in the tree.");
                       return l.lca(vertices1, vertices2);
                   },
diff --git a/higra/structure/py_tree_graph.cpp b/higra/structure/py_tree_graph.cpp
index b693c4f..08471e2 100644
--- a/higra/structure/py_tree_graph.cpp
+++ b/higra/structure/py_tree_graph.cpp
@@ -161,7 +161,7 @@ namespace py_tree_graph {
                       tree.compute_children();
                       hg_assert_vertex_indices(tree, vertices);
                       hg_assert(i >= 0, "Child index cannot be negative.");
-                      hg_assert(i < (index_t) (xt::amin)(num_children(vertices, tree))(),
+                      hg_assert(vertices.size() == 0 || i < (index_t) (xt::amin)(num_children(vertices, tree))(),
                                 "Child index is larger than the number of children.");
                       return hg::child(i, vertices, tree);
                   },
-- 
2.43.0


From 7f4f43cc280052a304bac6cb3aa35fb4d53d601c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:56 +0000
Subject: [PATCH 099/116] fix: embeddings: coordinates of invalid size were
 read out of bounds

---
 include/higra/structure/embedding.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/higra/structure/embedding.hpp b/include/higra/structure/embedding.hpp
index 0157039..90f69aa 100644
--- a/include/higra/structure/embedding.hpp
+++ b/include/higra/structure/embedding.hpp
@@ -166,6 +166,7 @@ namespace hg {
                     typename = std::enable_if_t<!std::is_base_of<xt::xexpression<T>, T>::value>
             >
             index_t grid2lin(const T &coordinates) const {
+                hg_assert(coordinates.size() == (size_t) dim, "Coordinates size does not match embedding dimension.");
                 index_t result = 0;
                 index_t count = 0;
                 for (const auto &c: coordinates)
@@ -202,6 +203,7 @@ namespace hg {
                 const auto &coordinates = xcoordinates.derived_cast();
                 //hg_assert(coordinates.shape().back() == dim, "Coordinates size does not match embedding dimension.");
 
+                hg_assert(coordinates.dimension() > 0, "Coordinates size does not match embedding dimension.");
                 auto last = coordinates.dimension() - 1;
                 return xt::sum(coordinates * sum_prod, {last});
             }
@@ -212,6 +214,7 @@ namespace hg {
              * @return
              */
             index_t grid2lin(const std::initializer_list<coordinates_t> &coordinates) const {
+                hg_assert(coordinates.size() == (size_t) dim, "Coordinates size does not match embedding dimension.");
                 index_t result = 0;
                 index_t count = 0;
                 for (const auto &c: coordinates)
@@ -226,6 +229,7 @@ namespace hg {
              * @return
              */
             bool contains(const std::initializer_list<coordinates_t> &coordinates) const {
+                hg_assert(coordinates.size() == (size_t) dim, "Coordinates size does not match embedding dimension.");
                 index_t count = 0;
                 for (const auto &c: coordinates)
                     if (c < 0 || c >= _shape(count++))
@@ -258,7 +262,8 @@ namespace hg {
                               "Coordinates must have integral value type.");
 
                 const auto &coordinates = xcoordinates.derived_cast();
-                hg_assert(coordinates.shape().back() == dim, "Coordinates size does not match embedding dimension.");
+                hg_assert(coordinates.dimension() > 0 && coordinates.shape().back() == dim,
+                          "Coordinates size does not match embedding dimension.");
 
                 return xt::amin(coordinates >= 0 && coordinates < _shape, {coordinates.dimension() - 1});
             }
@@ -273,6 +278,7 @@ namespace hg {
             >
             bool contains(const T &coordinates) const {
 
+                hg_assert(coordinates.size() == (size_t) dim, "Coordinates size does not match embedding dimension.");
                 index_t count = 0;
                 for (const auto &c: coordinates)
                     if (c < 0 || c >= _shape(count++))
-- 
2.43.0


From ed9fb6b3c864356716d8549cf2b042723559a7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:56 +0000
Subject: [PATCH 100/116] fix: huge unsigned vertex indices were accepted

---
 higra/structure/py_lca_fast.cpp | 4 ++--
 include/higra/utils.hpp         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/higra/structure/py_lca_fast.cpp b/higra/structure/py_lca_fast.cpp
index 8b920c6..72c7338 100644
--- a/higra/structure/py_lca_fast.cpp
+++ b/higra/structure/py_lca_fast.cpp
@@ -34,10 +34,10 @@ namespace py_lca_fast {
                             const pyarray<value_t> &vertices1,
                             const pyarray<value_t> &vertices2) {
                       hg_assert(vertices1.size() == 0 || (xt::amin)(vertices1)() >= 0, "Vertex indices cannot be negative.");
-                      hg_assert(vertices1.size() == 0 || (index_t) (index_t) (xt::amax)(vertices1)() < (index_t) l.num_elements(),
+                      hg_assert(vertices1.size() == 0 || (std::size_t) (xt::amax)(vertices1)() < (std::size_t) l.num_elements(),
                                 "Vertex indices must be smaller than the number of vertices in the tree.");
                       hg_assert(vertices2.size() == 0 || (xt::amin)(vertices2)() >= 0, "Vertex indices cannot be negative.");
-                      hg_assert(vertices2.size() == 0 || (index_t) (xt::amax)(vertices2)() < (index_t) l.num_elements(),
+                      hg_assert(vertices2.size() == 0 || (std::size_t) (xt::amax)(vertices2)() < (std::size_t) l.num_elements(),
                                 "Vertex indices must be smaller than the number of vertices in the tree.");
                       return l.lca(vertices1, vertices2);
                   },
diff --git a/include/higra/utils.hpp b/include/higra/utils.hpp
index 2c6ecfa..3cf857b 100644
--- a/include/higra/utils.hpp
+++ b/include/higra/utils.hpp
@@ -111,7 +111,7 @@ namespace hg {
 #define hg_assert_vertex_indices(graph, vertex_indices) do { \
     hg_assert(vertex_indices.size() == 0 || (xt::amin)(vertex_indices)() >= 0, \
               "Vertex indices cannot be negative.");\
-    hg_assert(vertex_indices.size() == 0 || (hg::index_t)(xt::amax)(vertex_indices)() < (hg::index_t)hg::num_vertices(graph), "Vertex indices must be smaller than the number of vertices in the graph/tree.");\
+    hg_assert(vertex_indices.size() == 0 || (std::size_t)(xt::amax)(vertex_indices)() < (std::size_t)hg::num_vertices(graph), "Vertex indices must be smaller than the number of vertices in the graph/tree.");\
     } while (0)
 
 #define hg_assert_vertex_index(graph, vertex_index) do { \
@@ -123,7 +123,7 @@ namespace hg {
 #define hg_assert_edge_indices(graph, edge_indices) do { \
     hg_assert(edge_indices.size() == 0 || (xt::amin)(edge_indices)() >= 0, \
               "Edge indices cannot be negative.");\
-    hg_assert(edge_indices.size() == 0 || (hg::index_t)(xt::amax)(edge_indices)() < (hg::index_t)hg::num_edges(graph), "Edge indices must be smaller than the number of edges in the graph/tree.");\
+    hg_assert(edge_indices.size() == 0 || (std::size_t)(xt::amax)(edge_indices)() < (std::size_t)hg::num_edges(graph), "Edge indices must be smaller than the number of edges in the graph/tree.");\
     } while (0)
 
 #define hg_assert_edge_index(graph, edge_index) do { \
-- 
2.43.0


From 3e276c140b3e2f15b1a1a20b6629046d7a76fce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:01 +0000
Subject: [PATCH 101/116] fix: removed edges were read as vertex indices by
 graph algorithms

---
 include/higra/algo/graph_core.hpp                 |  4 ++++
 include/higra/algo/graph_weights.hpp              |  4 ++++
 include/higra/algo/tree_energy_optimization.hpp   |  4 ++++
 include/higra/algo/watershed.hpp                  |  3 +++
 include/higra/graph.hpp                           |  3 +++
 include/higra/hierarchy/binary_partition_tree.hpp |  4 ++++
 include/higra/hierarchy/hierarchy_core.hpp        | 13 +++++++++++--
 include/higra/image/graph_image.hpp               |  3 +++
 8 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/include/higra/algo/graph_core.hpp b/include/higra/algo/graph_core.hpp
index eaabd35..64907ba 100644
--- a/include/higra/algo/graph_core.hpp
+++ b/include/higra/algo/graph_core.hpp
@@ -150,6 +150,10 @@ namespace hg {
         while (num_edge_found < num_edge_mst_max && i < (index_t) sorted_edges_indices.size()) {
             auto ei = sorted_edges_indices[i];
             auto e = edge_from_index(ei, graph);
+            if ((index_t) source(e, graph) == invalid_index) { // removed edge
+                i++;
+                continue;
+            }
             auto c1 = uf.find(source(e, graph));
             auto c2 = uf.find(target(e, graph));
             if (c1 != c2) {
diff --git a/include/higra/algo/graph_weights.hpp b/include/higra/algo/graph_weights.hpp
index a9bdff7..f65c325 100644
--- a/include/higra/algo/graph_weights.hpp
+++ b/include/higra/algo/graph_weights.hpp
@@ -51,6 +51,10 @@ namespace hg {
 
         parfor(0, num_edges(graph), [&graph, &fun, &result](index_t i) {
             auto e = edge_from_index(i, graph);
+            if ((index_t) source(e, graph) == invalid_index) { // removed edge
+                result(i) = 0;
+                return;
+            }
             result(e) = fun(source(e, graph), target(e, graph));
         });
         return result;
diff --git a/include/higra/algo/tree_energy_optimization.hpp b/include/higra/algo/tree_energy_optimization.hpp
index c006228..e77adc1 100644
--- a/include/higra/algo/tree_energy_optimization.hpp
+++ b/include/higra/algo/tree_energy_optimization.hpp
@@ -443,6 +443,10 @@ namespace hg {
                 for (auto e: edge_iterator(m_graph)) {
                     auto s = source(e, m_graph);
                     auto t = target(e, m_graph);
+                    if ((index_t) s == invalid_index) { // removed edge
+                        edge_weights((index_t) e) = 0;
+                        continue;
+                    }
                     edge_weights(e) = computation_helper<vectorial>::apparition_scale(
                             m_optimal_energies, m_area, m_perimeter, m_sum, m_sum2,
                             s, t, m_edge_length(e));
diff --git a/include/higra/algo/watershed.hpp b/include/higra/algo/watershed.hpp
index 78650a2..175359a 100644
--- a/include/higra/algo/watershed.hpp
+++ b/include/higra/algo/watershed.hpp
@@ -150,6 +150,9 @@ namespace hg {
         for (index_t i = 0; i < num_edges; i++) {
             auto ei = sorted_edges_indices[i];
             auto e = edge_from_index(ei, graph);
+            if ((index_t) source(e, graph) == invalid_index) { // removed edge
+                continue;
+            }
             auto c1 = uf.find(source(e, graph));
             auto c2 = uf.find(target(e, graph));
 
diff --git a/include/higra/graph.hpp b/include/higra/graph.hpp
index 059c932..bc3be02 100644
--- a/include/higra/graph.hpp
+++ b/include/higra/graph.hpp
@@ -436,6 +436,9 @@ namespace hg {
         a.fill(non_edge_value);
 
         for (const auto &e: edge_iterator(graph)) {
+            if ((index_t) source(e, graph) == invalid_index) { // removed edge
+                continue;
+            }
             a(source(e, graph), target(e, graph)) = a(target(e, graph), source(e, graph)) = edge_weights(
                     index(e, graph));
         }
diff --git a/include/higra/hierarchy/binary_partition_tree.hpp b/include/higra/hierarchy/binary_partition_tree.hpp
index f5e0061..dc52c23 100644
--- a/include/higra/hierarchy/binary_partition_tree.hpp
+++ b/include/higra/hierarchy/binary_partition_tree.hpp
@@ -460,6 +460,10 @@ namespace hg {
                           "vertex_centroids and vertex_sizes first dimension must be equal to the number of vertices.");
                 array_1d<double> weights = xt::empty<double>({num_edges(graph)});
                 for (auto e: edge_iterator(graph)) {
+                    if ((index_t) source(e, graph) == invalid_index) { // removed edge
+                        weights((index_t) e) = 0;
+                        continue;
+                    }
                     weights(e) = cluster_distance(source(e, graph), target(e, graph));
                 }
                 return weights;
diff --git a/include/higra/hierarchy/hierarchy_core.hpp b/include/higra/hierarchy/hierarchy_core.hpp
index 738263a..9f08f95 100644
--- a/include/higra/hierarchy/hierarchy_core.hpp
+++ b/include/higra/hierarchy/hierarchy_core.hpp
@@ -83,6 +83,10 @@ namespace hg {
 
             while (num_edge_found < num_edge_mst && i < (index_t) sorted_edge_indices.size()) {
                 auto ei = sorted_edge_indices[i];
+                if ((index_t) sources(ei) == invalid_index) { // removed edge
+                    i++;
+                    continue;
+                }
                 auto c1 = uf.find(sources(ei));
                 auto c2 = uf.find(targets(ei));
                 if (c1 != c2) {
@@ -373,8 +377,13 @@ namespace hg {
                       const xt::xexpression<T> &xaltitudes) {
         auto &altitudes = xaltitudes.derived_cast();
         lca_fast lca(tree);
-        auto lca_edges = lca.lca(edge_iterator(graph));
-        return xt::eval(xt::index_view(altitudes, lca_edges));
+        array_1d<typename T::value_type> result = xt::zeros<typename T::value_type>({num_edges(graph)});
+        for (const auto &e: edge_iterator(graph)) {
+            if ((index_t) source(e, graph) != invalid_index) { // not a removed edge
+                result(index(e, graph)) = altitudes(lca.lca(source(e, graph), target(e, graph)));
+            }
+        }
+        return result;
     }
 
     /**
diff --git a/include/higra/image/graph_image.hpp b/include/higra/image/graph_image.hpp
index 90fd9a2..3ed9acb 100644
--- a/include/higra/image/graph_image.hpp
+++ b/include/higra/image/graph_image.hpp
@@ -192,6 +192,9 @@ namespace hg {
 
         point_2d_i one{{1, 1}};
         for (const auto &e: edge_iterator(g)) {
+            if ((index_t) source(e, g) == invalid_index) { // removed edge
+                continue;
+            }
             auto s = embedding.lin2grid(source(e, g));
             auto t = embedding.lin2grid(target(e, g));
             if (extra_border) {
-- 
2.43.0


From dc881ff51b5904f2289dd4d3ba0157cb13122bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:01 +0000
Subject: [PATCH 102/116] fix: minimum spanning forest of an empty graph

---
 include/higra/algo/graph_core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/higra/algo/graph_core.hpp b/include/higra/algo/graph_core.hpp
index 64907ba..2b918a7 100644
--- a/include/higra/algo/graph_core.hpp
+++ b/include/higra/algo/graph_core.hpp
@@ -138,7 +138,7 @@ namespace hg {
 
         auto num_points = num_vertices(graph);
 
-        auto num_edge_mst_max = num_points - 1;
+        size_t num_edge_mst_max = (num_points > 0) ? num_points - 1 : 0;
         ugraph mst(num_points);
         array_1d<index_t> mst_edge_map = xt::empty<index_t>({num_edge_mst_max});
 
-- 
2.43.0


From 17b795e102c027d67a39e44fb61dc90c98b28afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:30 +0000
Subject: [PATCH 103/116] fix: removed edges were rejected or counted by
 bpt_canonical, dasgupta cost and sampling probability

---
 higra/assessment/hierarchical_cost.py      | 2 ++
 higra/attribute/tree_attributes.py         | 5 ++++-
 higra/hierarchy/py_hierarchy_core.cpp      | 7 +++++--
 include/higra/hierarchy/hierarchy_core.hpp | 2 +-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/higra/assessment/hierarchical_cost.py b/higra/assessment/hierarchical_cost.py
index e72aa77..9a9bbb4 100644
--- a/higra/assessment/hierarchical_cost.py
+++ b/higra/assessment/hierarchical_cost.py
@@ -115,6 +115,8 @@ def dasgupta_cost(tree, edge_weights, leaf_graph, mode="dissimilarity"):
 
     lcaf = tree.lowest_common_ancestor_preprocess()
     lca = lcaf.lca(leaf_graph)
+    valid = lca >= 0  # ignores removed edges
+    lca, edge_weights = lca[valid], edge_weights[valid]
 
     if mode == "dissimilarity":
         return np.sum(area[lca] / edge_weights)
diff --git a/higra/attribute/tree_attributes.py b/higra/attribute/tree_attributes.py
index e4747f2..2dafc07 100644
--- a/higra/attribute/tree_attributes.py
+++ b/higra/attribute/tree_attributes.py
@@ -682,6 +682,8 @@ def attribute_tree_sampling_probability(tree, leaf_graph, leaf_graph_edge_weight
 
     if model == 'edge':
         lca_map = hg.attribute_lca_map(tree, leaf_graph=leaf_graph)
+        valid = lca_map >= 0  # ignores removed edges
+        lca_map, leaf_graph_edge_weights = lca_map[valid], leaf_graph_edge_weights[valid]
         leaf_graph_edge_weights = leaf_graph_edge_weights / np.sum(leaf_graph_edge_weights)
         result = np.zeros((tree.num_vertices(),), dtype=np.float64)
         np.add.at(result, lca_map, leaf_graph_edge_weights)
@@ -689,7 +691,8 @@ def attribute_tree_sampling_probability(tree, leaf_graph, leaf_graph_edge_weight
     else:  # model = 'null'
         leaf_graph_edge_weights = hg.cast_to_dtype(leaf_graph_edge_weights, np.float64)
         leaf_graph_vertex_weights = hg.accumulate_graph_edges(leaf_graph, leaf_graph_edge_weights, hg.Accumulators.sum)
-        leaf_graph_vertex_weights = leaf_graph_vertex_weights / np.sum(leaf_graph_edge_weights)
+        valid = leaf_graph.sources() >= 0  # ignores removed edges
+        leaf_graph_vertex_weights = leaf_graph_vertex_weights / np.sum(leaf_graph_edge_weights[valid])
         tree_node_weights = hg.accumulate_sequential(tree, leaf_graph_vertex_weights, hg.Accumulators.sum)
         return hg.attribute_children_pair_sum_product(tree, tree_node_weights)
 
diff --git a/higra/hierarchy/py_hierarchy_core.cpp b/higra/hierarchy/py_hierarchy_core.cpp
index c539d6e..1b572a7 100644
--- a/higra/hierarchy/py_hierarchy_core.cpp
+++ b/higra/hierarchy/py_hierarchy_core.cpp
@@ -60,8 +60,11 @@ namespace py_hierarchy_core {
                                    const xt::pytensor<hg::index_t, 1> &sorted_edge_indices,
                                    const hg::index_t num_vertices) {
             hg_assert(num_vertices >= 0, "Number of vertices must be a positive number.");
-            hg_assert(sources.size() == 0 || (xt::amin)(sources)() >= 0, "Source vertex index cannot be negative.");
-            hg_assert(targets.size() == 0 || (xt::amin)(targets)() >= 0, "Target vertex index cannot be negative.");
+            // removed edges have both extremities equal to invalid_index
+            hg_assert(sources.size() == 0 || (xt::amin)(sources)() >= hg::invalid_index,
+                      "Source vertex index cannot be negative.");
+            hg_assert(targets.size() == 0 || (xt::amin)(targets)() >= hg::invalid_index,
+                      "Target vertex index cannot be negative.");
             hg_assert(sorted_edge_indices.size() == 0 || (xt::amin)(sorted_edge_indices)() >= 0, "Edge index cannot be negative.");
             hg_assert(sources.size() == 0 || (xt::amax)(sources)() < num_vertices,
                       "Source vertex index must be less than the number of vertices.");
diff --git a/include/higra/hierarchy/hierarchy_core.hpp b/include/higra/hierarchy/hierarchy_core.hpp
index 9f08f95..44c8280 100644
--- a/include/higra/hierarchy/hierarchy_core.hpp
+++ b/include/higra/hierarchy/hierarchy_core.hpp
@@ -83,7 +83,7 @@ namespace hg {
 
             while (num_edge_found < num_edge_mst && i < (index_t) sorted_edge_indices.size()) {
                 auto ei = sorted_edge_indices[i];
-                if ((index_t) sources(ei) == invalid_index) { // removed edge
+                if ((index_t) sources(ei) == invalid_index || (index_t) targets(ei) == invalid_index) { // removed edge
                     i++;
                     continue;
                 }
-- 
2.43.0


From 9b0216b770d1c6a4f359155b1ae00d3e929d2a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:31 +0000
Subject: [PATCH 104/116] fix: common_type chose types that are too wide or
 lose integer values

---
 higra/hg_utils.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/higra/hg_utils.py b/higra/hg_utils.py
index 071dc10..55044a1 100644
--- a/higra/hg_utils.py
+++ b/higra/hg_utils.py
@@ -324,13 +324,13 @@ __minimum_type_order = {
     __bool: {
         __bool: __bool,
         __int8: __int8,
-        __uint8: __int16,
+        __uint8: __uint8,
         __int16: __int16,
-        __uint16: __int32,
+        __uint16: __uint16,
         __int32: __int32,
-        __uint32: __int64,
+        __uint32: __uint32,
         __int64: __int64,
-        __uint64: __int64,
+        __uint64: __uint64,
         __float32: __float32,
         __float64: __float64
     },
@@ -396,7 +396,7 @@ __minimum_type_order = {
         __uint32: __int64,
         __int64: __int64,
         __uint64: __int64,
-        __float32: __float32,
+        __float32: __float64,
         __float64: __float64
     },
     __uint32: {
@@ -409,7 +409,7 @@ __minimum_type_order = {
         __uint32: __uint32,
         __int64: __int64,
         __uint64: __uint64,
-        __float32: __float32,
+        __float32: __float64,
         __float64: __float64
     },
     __int64: {
@@ -422,7 +422,7 @@ __minimum_type_order = {
         __uint32: __int64,
         __int64: __int64,
         __uint64: __int64,
-        __float32: __float32,
+        __float32: __float64,
         __float64: __float64
     },
     __uint64: {
@@ -435,7 +435,7 @@ __minimum_type_order = {
         __uint32: __uint64,
         __int64: __int64,
         __uint64: __uint64,
-        __float32: __float32,
+        __float32: __float64,
         __float64: __float64
     },
     __float32: {
@@ -444,10 +444,10 @@ __minimum_type_order = {
         __uint8: __float32,
         __int16: __float32,
         __uint16: __float32,
-        __int32: __float32,
-        __uint32: __float32,
-        __int64: __float32,
-        __uint64: __float32,
+        __int32: __float64,
+        __uint32: __float64,
+        __int64: __float64,
+        __uint64: __float64,
         __float32: __float32,
         __float64: __float64
     },
-- 
2.43.0


From db35b943e866372dfe7c964a4c89827f924349e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:46 +0000
Subject: [PATCH 105/116] fix: frontier length counted removed edges in the
 root

---
 higra/attribute/tree_attributes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/higra/attribute/tree_attributes.py b/higra/attribute/tree_attributes.py
index 2dafc07..4b285cf 100644
--- a/higra/attribute/tree_attributes.py
+++ b/higra/attribute/tree_attributes.py
@@ -112,8 +112,9 @@ def attribute_frontier_length(tree, edge_length=None, leaf_graph=None):
 
     lca_map = attribute_lca_map(tree, leaf_graph)
 
+    valid = lca_map >= 0  # ignores removed edges
     frontier_length = np.zeros((tree.num_vertices(),), dtype=edge_length.dtype)
-    np.add.at(frontier_length, lca_map, edge_length)
+    np.add.at(frontier_length, lca_map[valid], edge_length[valid])
     return frontier_length
 
 
-- 
2.43.0


From 093870a4cfc6de3fd2526902864582ffa8ac0d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:11 +0000
Subject: [PATCH 106/116] fix: common_type depended on the order of its
 arguments

---
 higra/hg_utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/higra/hg_utils.py b/higra/hg_utils.py
index 55044a1..7bdd81f 100644
--- a/higra/hg_utils.py
+++ b/higra/hg_utils.py
@@ -496,9 +496,11 @@ def common_type(*arrays, safety_level='minimum'):
     if safety_level != 'minimum':
         raise ValueError('Unknown safety level: should be "minimum" or "overflow"')
 
-    ctype = str(arrays[0].dtype)
-    for i in range(1, len(arrays)):
-        ctype = __minimum_type_order[ctype][str(arrays[i].dtype)]
+    # floating point types come first: no need to find an integral type common to integral types
+    types = sorted((str(a.dtype) for a in arrays), key=lambda t: t not in (__float32, __float64))
+    ctype = types[0]
+    for t in types[1:]:
+        ctype = __minimum_type_order[ctype][t]
 
     return np.dtype(ctype)
 
-- 
2.43.0


From 507556c6b272cf9ec55139cc672090146b9f75a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:27 +0000
Subject: [PATCH 107/116] fix: hierarchies of a graph without vertices crashed

---
 include/higra/algo/tree_energy_optimization.hpp   | 1 +
 include/higra/hierarchy/binary_partition_tree.hpp | 2 ++
 include/higra/hierarchy/component_tree.hpp        | 2 ++
 include/higra/hierarchy/hierarchy_core.hpp        | 1 +
 4 files changed, 6 insertions(+)

diff --git a/include/higra/algo/tree_energy_optimization.hpp b/include/higra/algo/tree_energy_optimization.hpp
index e77adc1..ab4bfde 100644
--- a/include/higra/algo/tree_energy_optimization.hpp
+++ b/include/higra/algo/tree_energy_optimization.hpp
@@ -718,6 +718,7 @@ namespace hg {
         auto &edge_length = xedge_length.derived_cast();
         hg_assert_edge_weights(graph, edge_length);
         hg_assert_1d_array(edge_length);
+        hg_assert(num_vertices(graph) > 0, "The graph must contain at least one vertex.");
 
         if (vertex_values.dimension() == 1) {
             auto wf = tree_energy_optimization_internal::
diff --git a/include/higra/hierarchy/binary_partition_tree.hpp b/include/higra/hierarchy/binary_partition_tree.hpp
index dc52c23..1421bf8 100644
--- a/include/higra/hierarchy/binary_partition_tree.hpp
+++ b/include/higra/hierarchy/binary_partition_tree.hpp
@@ -442,6 +442,7 @@ namespace hg {
                           "vertex_centroids must be 2d (each vertex centroid is a 1d vector).");
                 hg_assert(vertex_centroids.shape(0) == vertex_sizes.shape(0),
                           "vertex_centroids and vertex_sizes first dimension must be equal.");
+                hg_assert(vertex_sizes.size() > 0, "The graph must contain at least one vertex.");
 
                 auto num_elem = vertex_sizes.size() * 2 - 1;
                 m_dim = vertex_centroids.shape(1);
@@ -577,6 +578,7 @@ namespace hg {
         auto &edge_weights = xedge_weights.derived_cast();
         hg_assert_edge_weights(graph, edge_weights);
         hg_assert_1d_array(edge_weights);
+        hg_assert(num_vertices(graph) > 0, "The graph must contain at least one vertex.");
 
         auto g = copy_graph<undirected_graph<hash_setS> >(graph); // optimized for removal
 
diff --git a/include/higra/hierarchy/component_tree.hpp b/include/higra/hierarchy/component_tree.hpp
index f046954..8e7ea47 100644
--- a/include/higra/hierarchy/component_tree.hpp
+++ b/include/higra/hierarchy/component_tree.hpp
@@ -166,6 +166,7 @@ namespace hg {
         auto &vertex_weights = xvertex_weights.derived_cast();
         hg_assert_vertex_weights(graph, vertex_weights);
         hg_assert_1d_array(vertex_weights);
+        hg_assert(num_vertices(graph) > 0, "The graph must contain at least one vertex.");
 
         array_1d<index_t> sorted_vertex_indices = stable_arg_sort(vertex_weights);
         return component_tree_internal::tree_from_sorted_vertices(graph, vertex_weights, sorted_vertex_indices);
@@ -199,6 +200,7 @@ namespace hg {
         auto &vertex_weights = xvertex_weights.derived_cast();
         hg_assert_vertex_weights(graph, vertex_weights);
         hg_assert_1d_array(vertex_weights);
+        hg_assert(num_vertices(graph) > 0, "The graph must contain at least one vertex.");
 
         array_1d<index_t> sorted_vertex_indices = stable_arg_sort(vertex_weights,
                                                                   std::greater<typename T::value_type>());
diff --git a/include/higra/hierarchy/hierarchy_core.hpp b/include/higra/hierarchy/hierarchy_core.hpp
index 44c8280..3e06852 100644
--- a/include/higra/hierarchy/hierarchy_core.hpp
+++ b/include/higra/hierarchy/hierarchy_core.hpp
@@ -67,6 +67,7 @@ namespace hg {
             hg_assert_integral_value_type(sources);
             hg_assert_integral_value_type(targets);
             hg_assert_integral_value_type(sorted_edge_indices);
+            hg_assert(num_vertices > 0, "The graph must contain at least one vertex.");
 
             auto num_edge_mst = num_vertices - 1;
 
-- 
2.43.0


From 866e6e19431aa965f576655cd4f70afb8c1971cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:51 +0000
Subject: [PATCH 108/116] fix: vectorial argmin and argmax accumulators left
 values of their result uninitialized

---
 include/higra/accumulator/accumulator.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/higra/accumulator/accumulator.hpp b/include/higra/accumulator/accumulator.hpp
index ed02dfc..1730f54 100644
--- a/include/higra/accumulator/accumulator.hpp
+++ b/include/higra/accumulator/accumulator.hpp
@@ -286,7 +286,7 @@ namespace hg {
 
             template<typename ...Args>
             void initialize(Args &&...) {
-                *m_storage_begin = -1;
+                std::fill(m_storage_begin, m_storage_end, (storage_value_type) -1);
                 cur_index = 0;
                 std::fill(m_temp.begin(), m_temp.end(), (std::numeric_limits<storage_value_type>::max)());
             }
@@ -298,7 +298,7 @@ namespace hg {
                 auto t = m_temp.begin();
                 auto v = value_begin;
                 bool flag = true;
-                for (; flag && t != m_temp.end(); t++, v++) {
+                for (; flag && cur_index > 0 && t != m_temp.end(); t++, v++) {
                     if (*t < *v)
                         flag = false;
                 }
@@ -308,7 +308,7 @@ namespace hg {
                     for (; flag && t != m_temp.end(); t++, v++) {
                         *t = *v;
                     }
-                    *m_storage_begin = (storage_value_type)cur_index;
+                    std::fill(m_storage_begin, m_storage_end, (storage_value_type)cur_index);
                 }
 
                 cur_index++;
@@ -370,7 +370,7 @@ namespace hg {
 
             template<typename ...Args>
             void initialize(Args &&...) {
-                *m_storage_begin = -1;
+                std::fill(m_storage_begin, m_storage_end, (storage_value_type) -1);
                 cur_index = 0;
                 std::fill(m_temp.begin(), m_temp.end(), std::numeric_limits<storage_value_type>::lowest());
             }
@@ -382,7 +382,7 @@ namespace hg {
                 auto t = m_temp.begin();
                 auto v = value_begin;
                 bool flag = true;
-                for (; flag && t != m_temp.end(); t++, v++) {
+                for (; flag && cur_index > 0 && t != m_temp.end(); t++, v++) {
                     if (*t > *v)
                         flag = false;
                 }
@@ -392,7 +392,7 @@ namespace hg {
                     for (; flag && t != m_temp.end(); t++, v++) {
                         *t = *v;
                     }
-                    *m_storage_begin = (storage_value_type)cur_index;
+                    std::fill(m_storage_begin, m_storage_end, (storage_value_type)cur_index);
                 }
 
                 cur_index++;
-- 
2.43.0


From 90d09b079674e09f5459460a397fdca0dcb59eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:30 +0000
Subject: [PATCH 109/116] fix: triangular_filter used another kernel than the
 documented one

---
 higra/image/image_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/higra/image/image_utils.py b/higra/image/image_utils.py
index 94fe38d..7394531 100644
--- a/higra/image/image_utils.py
+++ b/higra/image/image_utils.py
@@ -25,7 +25,7 @@ def triangular_filter(image, size):
     :param size: a positive integer
     :return: a 2d array with the same shape as image
     """
-    kernel = np.asarray(list(range(size + 1)) + list(range(size, 0, -1)))
+    kernel = np.asarray(list(range(1, size + 2)) + list(range(size, 0, -1))) / (size + 1) ** 2
     im2 = np.pad(image, size, 'symmetric')
     im2 = np.apply_along_axis(lambda m: np.convolve(m, kernel, mode='valid'), axis=0, arr=im2)
     im2 = np.apply_along_axis(lambda m: np.convolve(m, kernel, mode='valid'), axis=1, arr=im2)
-- 
2.43.0


From 56aee00b0960b0d7ec94d1e14a7f444c00de2318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:16 +0000
Subject: [PATCH 110/116] fix: print_partition_tree failed when all the inner
 nodes have the same altitude

---
 higra/io_utils/tree_io.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/higra/io_utils/tree_io.py b/higra/io_utils/tree_io.py
index b2e87c1..4049376 100644
--- a/higra/io_utils/tree_io.py
+++ b/higra/io_utils/tree_io.py
@@ -76,8 +76,10 @@ def print_partition_tree(tree, *,
     if altitudes is None:
         normalized_altitudes = altitudes = hg.attribute_regular_altitudes(tree)
     else:
-        min_a = np.min(altitudes[tree.num_leaves():])
-        normalized_altitudes = (altitudes - min_a) / (np.max(altitudes) - min_a)
+        min_a = np.min(altitudes[tree.num_leaves():], initial=altitudes[tree.root()])
+        range_a = np.max(altitudes) - min_a
+        # all the inner nodes may have the same altitude
+        normalized_altitudes = (altitudes - min_a) / (range_a if range_a != 0 else 1)
         normalized_altitudes[:tree.num_leaves()] = 0
 
     if scale == "log":
@@ -93,7 +95,7 @@ def print_partition_tree(tree, *,
 
     # the minimum difference of altitudes between a child and its parent will determine the total size of the graph
     diff_altitudes = normalized_altitudes[tree.parents()] - normalized_altitudes
-    min_diff_altitudes = np.min(diff_altitudes[np.nonzero(diff_altitudes)])
+    min_diff_altitudes = np.min(diff_altitudes[np.nonzero(diff_altitudes)]) if np.any(diff_altitudes) else 1
 
     # spacing between two succesors cannot be less than float_size + 3
     total_width = int((float_size + 3) / min_diff_altitudes + 1)
-- 
2.43.0


From 0b3d30eeab27c52ec0d9ae26b038cb6f98a75a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:16 +0000
Subject: [PATCH 111/116] fix: print_partition_tree drew the first leaf in the
 last line with the leaves ordering

---
 higra/io_utils/tree_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/higra/io_utils/tree_io.py b/higra/io_utils/tree_io.py
index 4049376..0697f15 100644
--- a/higra/io_utils/tree_io.py
+++ b/higra/io_utils/tree_io.py
@@ -128,7 +128,7 @@ def print_partition_tree(tree, *,
 
     # special case, not that the branch of the tree might self-intersect...
     if ordering is None:
-        yy[:nleaves] = np.arange(0, total_height, y_spacing + 1)
+        yy[:nleaves] = np.arange(1, total_height + 1, y_spacing + 1)
         for n in tree.leaves_to_root_iterator(include_leaves=False):
             yy[n] = np.mean(yy[tree.children(n)])
     else:
-- 
2.43.0


From c486e258fe2dfda5ff54c73838f17ab88b1a8500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:53 +0000
Subject: [PATCH 112/116] fix: accumulate_on_contours read out of bounds with a
 graph larger than the tree

---
 include/higra/accumulator/tree_contour_accumulator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/higra/accumulator/tree_contour_accumulator.hpp b/include/higra/accumulator/tree_contour_accumulator.hpp
index c5d268d..c7b9e15 100644
--- a/include/higra/accumulator/tree_contour_accumulator.hpp
+++ b/include/higra/accumulator/tree_contour_accumulator.hpp
@@ -37,6 +37,7 @@ namespace hg {
             hg_assert_node_weights(tree, depth);
             hg_assert_1d_array(depth);
             hg_assert_integral_value_type(depth);
+            hg_assert(num_vertices(graph) <= num_vertices(tree), "The graph has more vertices than the tree.");
 
             auto data_shape = std::vector<size_t>(input.shape().begin() + 1, input.shape().end());
             auto output_shape = accumulator_t::get_output_shape(data_shape);
-- 
2.43.0


From c212e325b80be9e361796683b5700492e2aebd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:46 +0000
Subject: [PATCH 113/116] fix: attribute_area wrapped around with vertex areas
 of a small integer type

---
 higra/attribute/tree_attributes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/higra/attribute/tree_attributes.py b/higra/attribute/tree_attributes.py
index 4b285cf..a1e73cf 100644
--- a/higra/attribute/tree_attributes.py
+++ b/higra/attribute/tree_attributes.py
@@ -33,6 +33,9 @@ def attribute_area(tree, vertex_area=None, leaf_graph=None):
 
     if leaf_graph is not None:
         vertex_area = hg.linearize_vertex_weights(vertex_area, leaf_graph)
+    # areas may not be summed safely with small integer types
+    vertex_area = np.asarray(vertex_area)
+    vertex_area = hg.cast_to_dtype(vertex_area, np.add.reduce(vertex_area[:0]).dtype)
     return hg.accumulate_sequential(tree, vertex_area, hg.Accumulators.sum)
 
 
-- 
2.43.0


From 6973fcdd7be9cd7c793171fe38f198ac60241570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:46 +0000
Subject: [PATCH 114/116] fix: mean accumulator divided by zero or wrapped
 around with small integer types

---
 include/higra/accumulator/accumulator.hpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/higra/accumulator/accumulator.hpp b/include/higra/accumulator/accumulator.hpp
index 1730f54..98fdb5f 100644
--- a/include/higra/accumulator/accumulator.hpp
+++ b/include/higra/accumulator/accumulator.hpp
@@ -12,7 +12,9 @@
 
 #include "../utils.hpp"
 #include <functional>
+#include <cstdint>
 #include <limits>
+#include <type_traits>
 #include <vector>
 
 namespace hg {
@@ -145,10 +147,16 @@ namespace hg {
 
             using self_type = acc_mean_impl<S, vectorial>;
             using value_type = typename std::iterator_traits<S>::value_type;
+            // integral values are summed in a wide type: the mean fits in value_type but the sum may not
+            using sum_type = std::conditional_t<
+                    std::is_integral<value_type>::value,
+                    std::conditional_t<std::is_signed<value_type>::value, std::int64_t, std::uint64_t>,
+                    value_type>;
             static const bool is_vectorial = vectorial;
 
             acc_mean_impl(S storage_begin, S storage_end) :
                     m_counter(0),
+                    m_sum((vectorial) ? (std::size_t) (storage_end - storage_begin) : 1, 0),
                     m_storage_begin(storage_begin),
                     m_storage_end(storage_end) {
             }
@@ -158,6 +166,7 @@ namespace hg {
             initialize(Args &&...) {
                 m_counter = 0;
                 std::fill(m_storage_begin, m_storage_end, 0);
+                std::fill(m_sum.begin(), m_sum.end(), 0);
             }
 
             template<typename T = self_type, typename ...Args>
@@ -165,14 +174,14 @@ namespace hg {
             initialize(Args &&...) {
                 m_counter = 0;
                 *m_storage_begin = 0;
+                m_sum[0] = 0;
             }
 
             template<typename T1 = self_type, typename T, typename ...Args>
             std::enable_if_t<T1::is_vectorial>
             accumulate(T value_begin, Args &&...) {
                 m_counter++;
-                auto s = m_storage_begin;
-                for (; s != m_storage_end; s++, value_begin++) {
+                for (auto s = m_sum.begin(); s != m_sum.end(); s++, value_begin++) {
                     *s += *value_begin;
                 }
             }
@@ -181,15 +190,16 @@ namespace hg {
             std::enable_if_t<!T1::is_vectorial>
             accumulate(const T value_begin, Args &&...) {
                 m_counter++;
-                *m_storage_begin += *value_begin;
+                m_sum[0] += *value_begin;
             }
 
             template<typename T = self_type, typename ...Args>
             typename std::enable_if_t<T::is_vectorial>
             finalize(Args &&...) const {
                 if (m_counter != 0) {
-                    for (auto s = m_storage_begin; s != m_storage_end; s++) {
-                        *s /= (value_type) m_counter;
+                    auto sum = m_sum.begin();
+                    for (auto s = m_storage_begin; s != m_storage_end; s++, sum++) {
+                        *s = (value_type) (*sum / (sum_type) m_counter);
                     }
                 }
             }
@@ -198,7 +208,7 @@ namespace hg {
             typename std::enable_if_t<!T::is_vectorial>
             finalize(Args &&...) const {
                 if (m_counter != 0) {
-                    *m_storage_begin /= (value_type) m_counter;
+                    *m_storage_begin = (value_type) (m_sum[0] / (sum_type) m_counter);
                 }
             }
 
@@ -215,6 +225,7 @@ namespace hg {
 
         private:
             std::size_t m_counter;
+            std::vector<sum_type> m_sum;
             S m_storage_begin;
             S m_storage_end;
         };
-- 
2.43.0


From ad2f5dabc4a8494c1febd5132c022fc9b083e3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:37 +0000
Subject: [PATCH 115/116] fix: attribute_frontier_strength wrapped around with
 edge weights of a small integer type

---
 higra/attribute/tree_attributes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/higra/attribute/tree_attributes.py b/higra/attribute/tree_attributes.py
index a1e73cf..03d4b7c 100644
--- a/higra/attribute/tree_attributes.py
+++ b/higra/attribute/tree_attributes.py
@@ -139,6 +139,10 @@ def attribute_frontier_strength(tree, edge_weights, leaf_graph):
     :param leaf_graph: graph on the leaves of the input tree (deduced from :class:`~higra.CptHierarchy`)
     :return: a 1d array
     """
+    # weights may not be summed safely with small integer types
+    dtype = edge_weights.dtype
+    edge_weights = hg.cast_to_dtype(edge_weights, np.add.reduce(edge_weights[:0]).dtype)
+
     # this is a rag like graph
     if hg.CptRegionAdjacencyGraph.validate(leaf_graph) and edge_weights.shape[0] != leaf_graph.num_edges():
         edge_weights = hg.rag_accumulate_on_edges(leaf_graph, hg.Accumulators.sum, edge_weights=edge_weights)
@@ -147,7 +151,7 @@ def attribute_frontier_strength(tree, edge_weights, leaf_graph):
     # copy: the frontier length is stored in the cache
     frontier_strength = hg.attribute_frontier_length(tree, edge_weights, leaf_graph).copy()
     frontier_strength[tree.num_leaves():] = frontier_strength[tree.num_leaves():] / frontier_length[tree.num_leaves():]
-    return frontier_strength
+    return hg.cast_to_dtype(frontier_strength, dtype)
 
 
 @hg.argument_helper(hg.CptHierarchy)
-- 
2.43.0


From f68ee7d9d6ead9f10752045e6a7cde69f63dbf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:37 +0000
Subject: [PATCH 116/116] fix: attribute_vertex_perimeter wrapped around with
 edge lengths of a small integer type

---
 higra/attribute/graph_attributes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/higra/attribute/graph_attributes.py b/higra/attribute/graph_attributes.py
index 38e86ce..d34b2ca 100644
--- a/higra/attribute/graph_attributes.py
+++ b/higra/attribute/graph_attributes.py
@@ -78,6 +78,9 @@ def attribute_vertex_perimeter(graph, edge_length=None):
         res = hg.delinearize_vertex_weights(res, graph)
         return res
 
+    # lengths may not be summed safely with small integer types
+    edge_length = np.asarray(edge_length)
+    edge_length = hg.cast_to_dtype(edge_length, np.add.reduce(edge_length[:0]).dtype)
     res = hg.accumulate_graph_edges(graph, edge_length, hg.Accumulators.sum)
     res = hg.delinearize_vertex_weights(res, graph)
     return res
-- 
2.43.0

