#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []


def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=()):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    assert len(title) <= 80, title
    P.append(d)


I = "include/higra/"
H = "higra/"

prop("P01", "Undirected graphs behave as the edge multiset built by their mutation history",
     "After any sequence of adding vertices, adding edges (one at a time or in bulk), removing edges and re-targeting edges, every query of an undirected graph (vertex and edge counts, the extremities of each edge index, edge list, sources and targets, degrees, incident edges and adjacent vertices) equals what the plain sequence of operations defines. "
     "Edge indices are assigned in order of insertion and never change, parallel edges and self-loops are kept (a self-loop is listed and counted once at its vertex), each edge being reported with its smaller extremity as source, a removed edge disappears from all incidence lists while keeping its index with both extremities reported as -1, and setting a removed edge revives it. "
     "Arrays previously returned by a query keep the values they had when they were returned.",
     ["histories", "inputs"], "all finite sequences of graph mutations and queries, for the two storage variants of the incidence lists (list based and set based)",
     "Unit tests run a handful of fixed mutation sequences; they never remove an edge twice, revive one, mix self-loops with removals, or keep a result across a later mutation.",
     [I + "structure/undirected_graph.hpp", H + "structure/py_undirected_graph.cpp", H + "structure/undirected_graph.py", I + "structure/details/indexed_edge.hpp", H + "structure/py_common_graph.hpp"],
     [("edge and incidence list updates", I + "structure/undirected_graph.hpp: add_edge/remove_edge/set_edge"), ("bulk queries", H + "structure/py_undirected_graph.cpp: sources/targets/edge_list")],
     [("edge array", "extremities of each edge index, invalid once removed", I + "structure/undirected_graph.hpp: _edges"), ("incidence lists", "edges incident to each vertex", I + "structure/undirected_graph.hpp: out_edges")],
     ["UndirectedGraph Python API"])

prop("P02", "Grid graphs and embeddings agree with their arithmetic definition",
     "For any grid shape and neighbour list, the linear index/coordinate conversions are inverse row-major bijections (containment test included), and the implicit regular graph, its conversion to an explicit graph (for symmetric neighbour lists) and the 4-, 6-, 8-adjacency and n-dimensional image graph builders all describe the same graph: two pixels are adjacent exactly when their coordinates differ by a listed offset and both lie in the grid. "
     "The graph built from a mask contains an offset exactly for each strictly positive mask entry, relative to the mask centre. "
     "Vertex and pixel weights convert between flat and image layout without loss for any trailing value shape, and weighting a graph's edges from vertex values applies the named function (mean, min, max, L0 - zero when equal and one otherwise -, L1, L2, L-infinity, squared L2, source, target) to each edge's own extremities.",
     ["inputs", "configurations"], "all grid shapes in 1 to 5 dimensions, all neighbour lists / odd-sized masks, all vertices and coordinates, in or out of the domain",
     "Tests use two or three tiny fixed shapes (mostly 2d, square or 2x3); the guarantee is for every shape, dimension, offset list and border position.",
     [I + "structure/embedding.hpp", I + "structure/regular_graph.hpp", I + "structure/point.hpp", I + "image/graph_image.hpp", H + "image/graph_image.py", H + "structure/regular_graph.py", H + "structure/embedding.py", I + "algo/graph_weights.hpp", H + "algo/graph_weights.py", H + "hg_utils.py"],
     [("index arithmetic", I + "structure/embedding.hpp: grid2lin/lin2grid"), ("neighbour filtering at the border", I + "structure/regular_graph.hpp"), ("explicit graph construction", I + "image/graph_image.hpp: get_4_adjacency_graph/get_8_adjacency_graph/copy_graph"), ("edge weighting", I + "algo/graph_weights.hpp: weight_graph")],
     observe=["EmbeddingGrid*, RegularGraph*, get_*_adjacency_*graph, mask_2_neighbours, weight_graph"])

prop("P03", "Trees faithfully represent the parent relation they are built from",
     "A tree built from a valid parent array (leaves first, every non-root node before its parent, root last and its own parent) reports exactly the parents, children, leaves, degrees, edges, depth-ordered traversals, ancestor chains and ancestor tests which that array defines, whether or not child lists have been computed or cleared before. "
     "Finding the region of a vertex at a level returns the node reached from the vertex by climbing to the parent as long as the altitude of that parent is strictly lower than the level (the vertex itself if none is), extracting a sub-tree returns the tree induced by all descendants of the chosen node together with an order-preserving node map, and conversion to an undirected graph yields one edge per parent link. "
     "Every parent array that does not describe such a tree is rejected with an exception.",
     ["inputs"], "all parent arrays (valid or not), including unary chains, stars, single node trees, and all node/altitude/level arguments",
     "Tests use one or two 8-node trees; validity and navigation must hold for arbitrary shapes, unary nodes and rejected arrays (out-of-range or negative entries, cycles, inner nodes before leaves, several roots).",
     [I + "structure/tree_graph.hpp", H + "structure/py_tree_graph.cpp", H + "structure/tree_graph.py", I + "structure/details/iterators.hpp", H + "structure/py_common_graph.hpp"],
     [("construction checks", I + "structure/tree_graph.hpp: _init"), ("children lists", I + "structure/tree_graph.hpp: compute_children"), ("region search", I + "structure/tree_graph.hpp: find_region"), ("sub-tree extraction", I + "structure/tree_graph.hpp: sub_tree")],
     observe=["Tree Python API"])

prop("P04", "Lowest common ancestor queries are exact for all node pairs",
     "For every tree and every pair of nodes (or array of pairs, or edges of a leaf graph), each available way to query lowest common ancestors - the plain tree walk, the preprocessed constant-time structures in all their variants, and the structures restored from their saved state - returns the deepest node that is an ancestor of both (a node counts as its own ancestor). "
     "The answer is symmetric, is the node itself for identical arguments, and does not depend on whether the structure was preprocessed, copied, or already used for other queries.",
     ["inputs", "configurations"], "all tree shapes and sizes (crossing every internal block or power-of-two boundary), all node pairs, all query forms",
     "Tests check a dozen pairs on an 8-node tree; range-minimum preprocessing has boundary cases tied to tree size and shape which only show on other sizes.",
     [I + "structure/lca_fast.hpp", I + "structure/details/range_minimum_query.hpp", H + "structure/py_lca_fast.cpp", H + "structure/lca_fast.py", H + "structure/tree_graph.py", I + "structure/tree_graph.hpp", H + "attribute/tree_attributes.py"],
     [("Euler-tour reduction and range minimum queries", I + "structure/lca_fast.hpp"), ("plain walk", I + "structure/tree_graph.hpp: lowest_common_ancestor"), ("lazy preprocessing on the Python side", H + "structure/tree_graph.py")],
     observe=["Tree.lowest_common_ancestor, LCA classes, attribute_lca_map"])

prop("P05", "Tree accumulators and propagators compute their recursive definitions",
     "For every tree, accumulator (mean, min, max, counter, sum, product, argmin, argmax, first, last) and scalar- or vector-valued node data, parallel accumulation gives each node the accumulation of its children's input values in increasing node order, sequential accumulation does so from the leaf data upwards on accumulated values, the and-add/multiply/min/max variants combine each node's own value with that accumulation, and empty accumulations give the accumulator's documented neutral value; on vectors, argmin and argmax give, in every component, the index of the vector that is extreme in all its components when there is exactly one. "
     "The mean of integers is their exact mean rounded towards zero, whatever their number and the width of their type (as long as their sum fits in 64 bits). "
     "Parallel and sequential propagation give each node its parent's (resp. its parent's already propagated) value exactly where the condition holds, and sequential propagation-accumulation combines each selected node's value with its parent's result. "
     "Results do not depend on whether the tree has its child lists computed.",
     ["inputs", "configurations"], "all trees, all accumulators, all numeric value types, scalar and multi-channel data, all boolean conditions, children lists computed or not",
     "Tests exercise one fixed 8-node tree and one or two accumulators per function; the accumulator x function x data-shape x child-list product is not covered.",
     [I + "accumulator/tree_accumulator.hpp", I + "accumulator/accumulator.hpp", H + "accumulator/py_tree_accumulators.cpp", H + "accumulator/tree_accumulator.py", I + "structure/details/light_axis_view.hpp"],
     [("accumulator state machines", I + "accumulator/accumulator.hpp"), ("traversals", I + "accumulator/tree_accumulator.hpp"), ("vectorial/scalar dispatch", I + "structure/details/light_axis_view.hpp")],
     observe=["accumulate_parallel, accumulate_sequential, accumulate_and_*_sequential, propagate_*"])

prop("P06", "Graph, index and contour accumulators aggregate exactly the right elements",
     "Accumulating over graph edges gives each vertex the accumulation of the weights of its incident edges, accumulating over graph vertices that of its neighbours' values, and accumulating at indices gives each index the accumulation of the values carrying it (negative indices ignored, size one more than the largest index). "
     "Accumulating on tree contours gives each graph edge the accumulation of the weights of the tree nodes whose region contains exactly one extremity of the edge. "
     "This holds for every accumulator and for scalar and multi-channel data, with the accumulator's neutral value where nothing is accumulated.",
     ["inputs"], "all graphs with parallel edges, self-loops and isolated vertices, all index arrays, all trees over a leaf graph, all accumulators and value shapes",
     "Tests use one fixed graph and index array per function; nothing covers multi-edges, missing indices, empty neighbourhoods or multi-channel data in general.",
     [I + "accumulator/graph_accumulator.hpp", I + "accumulator/at_accumulator.hpp", I + "accumulator/tree_contour_accumulator.hpp", I + "accumulator/accumulator.hpp", H + "accumulator/graph_accumulator.py", H + "accumulator/at_accumulator.py", H + "accumulator/tree_contour_accumulator.py"],
     [("incident edge traversal", I + "accumulator/graph_accumulator.hpp"), ("per-index accumulator bank", I + "accumulator/at_accumulator.hpp"), ("contour walk up to the lowest common ancestor", I + "accumulator/tree_contour_accumulator.hpp")],
     observe=["accumulate_graph_edges, accumulate_graph_vertices, accumulate_at, accumulate_on_contours"])

prop("P07", "Canonical, quasi-flat-zone and saliency hierarchies encode the minimax distance",
     "On any connected edge-weighted graph, the canonical binary partition tree is binary with non-decreasing altitudes, each inner node is built by one edge of a minimum spanning tree processed in weight order with ties broken by edge index (or in the given edge order), the reported spanning tree and edge map match those edges, and single-linkage, quasi-flat-zone and canonical hierarchies all have as saliency of an edge the minimax path weight between its extremities. "
     "The quasi-flat-zone hierarchy has one inner node per distinct connected component of threshold levels, so its altitudes strictly increase from child to parent above the leaves. "
     "Saliency of a hierarchy is the altitude of the lowest common ancestor of each edge, is a fixed point of the construction, and the ultrametric opening is the largest ultrametric below the weights. A random binary partition tree is a valid binary hierarchy on the requested number of leaves with one inner node per merge.",
     ["inputs"], "all connected graphs with parallel edges, all weight types and tie patterns (negative weights included), all valid user-given edge orders",
     "Tests check a few fixed small weightings; the min-max path, tie breaking and fixed-point laws quantify over all graphs and weightings.",
     [I + "hierarchy/hierarchy_core.hpp", H + "hierarchy/hierarchy_core.py", H + "hierarchy/py_hierarchy_core.cpp", I + "structure/unionfind.hpp", I + "sorting.hpp", I + "algo/graph_core.hpp", H + "algo/graph_core.py", H + "hierarchy/binary_partition_tree.py"],
     [("Kruskal-like construction", I + "hierarchy/hierarchy_core.hpp: bpt_canonical"), ("level collapse", I + "hierarchy/hierarchy_core.hpp: quasi_flat_zone_hierarchy/simplify_tree"), ("saliency", I + "hierarchy/hierarchy_core.hpp: saliency"), ("minimum spanning tree", I + "algo/graph_core.hpp")],
     observe=["bpt_canonical, quasi_flat_zone_hierarchy, saliency, ultrametric_open, minimum_spanning_tree, binary_partition_tree_single_linkage"])

prop("P08", "Agglomerative binary partition trees always merge a currently closest pair",
     "For complete, average, exponential, Ward and user-defined linkage on any connected weighted graph, the resulting tree is binary over the graph's vertices and each inner node, in creation order, merges two currently adjacent regions whose linkage value - recomputed from scratch from the definition over all their connecting edges, sizes and values - is the smallest among all currently adjacent pairs. "
     "The node altitudes are these merge values, with the documented running-maximum correction for Ward linkage when requested. "
     "The construction neither modifies its inputs nor depends on the existence of parallel edges other than through the linkage definition.",
     ["inputs"], "all connected graphs, edge weights, edge sizes, vertex centroids and sizes; every altitude correction option",
     "Tests compare three or four hand-computed examples; region merging with cascaded parallel-edge fusion on arbitrary topologies is not reached.",
     [I + "hierarchy/binary_partition_tree.hpp", H + "hierarchy/binary_partition_tree.py", H + "hierarchy/py_binary_partition_tree.cpp", I + "structure/fibonacci_heap.hpp", I + "structure/undirected_graph.hpp"],
     [("merge loop", I + "hierarchy/binary_partition_tree.hpp: binary_partition_tree"), ("linkage update rules", I + "hierarchy/binary_partition_tree.hpp: binary_partition_tree_*_linkage"), ("priority queue", I + "structure/fibonacci_heap.hpp")],
     observe=["binary_partition_tree and binary_partition_tree_*_linkage"])

prop("P09", "Min and max trees are the trees of level-set components",
     "For any connected vertex-weighted graph, the nodes of the max tree are exactly the connected components of the upper level sets, each once, with altitude the smallest vertex value inside, ordered by inclusion, and each vertex hangs under the component of its own value at which it first appears; the min tree is the same for lower level sets and equals the max tree of the reversed values. "
     "Reading altitudes at the leaves' parents gives back the vertex values exactly. "
     "This holds for every value type, including ties, negative, infinite and extreme values.",
     ["inputs"], "all connected graphs (explicit or implicit grids), all numeric weight types and tie patterns",
     "Tests check two fixed images; canonisation and node expansion must be right for every plateau configuration and traversal order.",
     [I + "hierarchy/component_tree.hpp", H + "hierarchy/component_tree.py", H + "hierarchy/py_component_tree.cpp", I + "structure/unionfind.hpp", I + "sorting.hpp"],
     [("pre-tree by union-find", I + "hierarchy/component_tree.hpp: pre_tree_construction"), ("canonisation", I + "hierarchy/component_tree.hpp: canonize_tree"), ("node expansion", I + "hierarchy/component_tree.hpp: expand_canonized_parent_relation")],
     observe=["component_tree_max_tree, component_tree_min_tree, reconstruct_leaf_data"])

prop("P10", "The tree of shapes is the inclusion tree of the image's shapes",
     "The tree of shapes of any 2d or 3d image lets the image be reconstructed exactly from the node altitudes, its nodes are connected and hole-free with respect to the exterior point in the interpolated space, and altitudes differ between each node and its parent. "
     "It is self-dual (the shapes of the negated image are the same regions when padding is applied consistently), and padding, original-size, immersion and exterior-point options give the documented leaf domain, border value and root. "
     "The multivariate version applied to an image whose bands are all equal gives the same set of shapes as the grey-level version.",
     ["inputs", "configurations"], "all 2d and 3d images of every supported value type, all padding / original size / immersion / exterior vertex combinations",
     "Tests use two or three small images with one value type; self-duality, wrap-around in border averages and option combinations need general inputs.",
     [I + "image/tree_of_shapes.hpp", H + "image/tree_of_shapes.py", H + "image/py_tree_of_shapes.cpp", I + "algo/tree_fusion.hpp", H + "algo/tree_fusion.py", I + "hierarchy/component_tree.hpp"],
     [("plain map interpolation", I + "image/tree_of_shapes.hpp: interpolate_plain_map_khalimsky"), ("front propagation order", I + "image/tree_of_shapes.hpp: sort_vertices_tree_of_shapes"), ("padding and cropping", I + "image/tree_of_shapes.hpp: component_tree_tree_of_shapes_image")],
     observe=["component_tree_tree_of_shapes_image*, component_tree_multivariate_tree_of_shapes_image2d"])

prop("P11", "Watershed cuts and watershed hierarchies respect their definitions",
     "The watershed labelisation of any edge-weighted graph gives one connected basin per regional minimum, numbered from 1, and keeps a minimum spanning forest rooted in the minima (every vertex reaches its minimum by a path of steepest descent inside its basin); the seeded version labels each vertex by a seed connected to it inside the region with optimal minimax cost, keeps seed labels, and marks exactly the unreachable vertices with the background label. "
     "A watershed hierarchy by an attribute (area, volume, dynamics, number of parents, given minima ordering or custom attribute) is a binary tree on a minimum spanning tree whose level at each merge is the smaller attribute extinction of the two merged sides, and cutting it at any level yields the watershed of the flooding that removes the lower-ranked minima.",
     ["inputs"], "all connected graphs, weight and tie patterns, seed maps with several labels and custom background label, all regional attributes and minima orderings",
     "Tests use one fixed graph per attribute; plateau handling and extinction ordering depend on tie patterns that fixed examples do not sample.",
     [I + "algo/watershed.hpp", I + "hierarchy/watershed_hierarchy.hpp", H + "algo/watershed.py", H + "hierarchy/watershed_hierarchy.py", H + "hierarchy/py_watershed_hierarchy.cpp", H + "algo/py_watershed.cpp"],
     [("stream based watershed cut", I + "algo/watershed.hpp: labelisation_watershed"), ("seeded flooding", I + "algo/watershed.hpp: labelisation_seeded_watershed"), ("attribute persistence", I + "hierarchy/watershed_hierarchy.hpp")],
     observe=["labelisation_watershed, labelisation_seeded_watershed, watershed_hierarchy_by_*"])

prop("P12", "Constrained-connectivity hierarchies honour both their local and global range",
     "For any connected graph without self-loops, cutting the (alpha, omega) hierarchy of vertex values at a level k below its root level puts each vertex in the largest region that is, for some k' <= k, a connected component of the edges whose extremities differ by at most k' and whose vertex value range is at most k'. "
     "The strong-connection hierarchy of non-negative edge weights does the same with the connected components of the edges of weight at most k' whose inner edges all have weight at most k'. "
     "In both cases the root level is the smallest level at which the graph is connected, and altitudes strictly increase above the leaves.",
     ["inputs"], "all connected graphs, all vertex value types (scalar or multi-band where supported), all edge weights",
     "Tests check one 4x4 example for each function.",
     [H + "hierarchy/constrained_connectivity_hierarchy.py", I + "hierarchy/hierarchy_core.hpp", I + "accumulator/tree_accumulator.hpp", H + "algo/tree.py"],
     [("range constraint on quasi-flat zones", H + "hierarchy/constrained_connectivity_hierarchy.py")],
     observe=["constrained_connectivity_hierarchy_alpha_omega, constrained_connectivity_hierarchy_strong_connection"])

prop("P13", "Horizontal cuts are exactly the partitions of a hierarchy's levels",
     "For every hierarchy with increasing altitudes, the horizontal-cut explorer enumerates the cut of each distinct altitude once, from the coarsest (one region) to the finest, with consistent region counts and altitudes, and selecting a cut by index, altitude (coarsest cut whose altitude does not exceed it) or number of regions (at least / at most, nearest existing cut) returns the corresponding nodes, leaf labels, graph cut and reconstructed leaf data. "
     "Threshold labelisation puts two leaves together exactly when the altitude of their lowest common ancestor is at most the threshold, the supervertex labelisation when it is zero (the tree on the supervertices keeps exactly the nodes above them), and number-of-regions labelisation agrees with the explorer. "
     "Using a cut remains valid after the explorer or the tree variable goes out of scope.",
     ["inputs", "histories"], "all trees (n-ary, unary chains, ties between levels), all altitudes and requested levels/counts including values between and outside existing ones",
     "Tests query one 11-node tree; ties, off-grid thresholds and degenerate trees are not covered.",
     [I + "algo/horizontal_cuts.hpp", H + "algo/horizontal_cuts.py", H + "algo/py_horizontal_cuts.cpp", I + "algo/tree.hpp", H + "algo/tree.py"],
     [("cut enumeration by altitude", I + "algo/horizontal_cuts.hpp: init/horizontal_cut_from_*"), ("threshold labelisation", I + "algo/tree.hpp: labelisation_horizontal_cut_from_threshold"), ("supervertices", I + "algo/tree.hpp: labelisation_hierarchy_supervertices/supervertices_hierarchy")],
     observe=["HorizontalCutExplorer, labelisation_horizontal_cut_from_*, labelisation_hierarchy_supervertices"])

prop("P14", "Tree simplifications keep exactly the hierarchy they promise",
     "Simplifying a tree with any deletion criterion keeps exactly the non-deleted nodes (and the root) with their inclusion relation and a correct node map, with or without leaf processing; canonisation removes exactly the nodes at their parent's altitude, binarisation only inserts nodes, sorting by altitude and isomorphism tests preserve and recognise the same hierarchy whatever the node numbering, and reconstruction gives each leaf the value of its lowest kept ancestor. "
     "Filtering a binary hierarchy by non-relevant nodes, small size or weak frontiers yields the saliency in which exactly the frontiers meeting the criterion are removed, so that no remaining region is smaller than the size limit and increasing altitudes are kept. "
     "Marker-based labelling returns the union of the nodes meeting the object marker and not the background marker.",
     ["inputs"], "all trees, deletion masks, altitudes with ties, permutations of node numbering, size limits and marker sets",
     "Tests use one fixed tree and mask each; unary chains, deleted leaves, root deletion and ties are not sampled.",
     [I + "algo/tree.hpp", H + "algo/tree.py", H + "algo/py_tree.cpp", I + "hierarchy/hierarchy_core.hpp", H + "hierarchy/hierarchy_core.py", H + "hierarchy/py_hierarchy_core.cpp"],
     [("simplification", I + "hierarchy/hierarchy_core.hpp: simplify_tree"), ("sorting and isomorphism", I + "algo/tree.hpp: sort_hierarchy_with_altitudes/test_tree_isomorphism"), ("filters", H + "algo/tree.py: filter_*")],
     observe=["simplify_tree, canonize_hierarchy, tree_2_binary_tree, sort_hierarchy_with_altitudes, test_tree_isomorphism, reconstruct_leaf_data, filter_*_from_tree, binary_labelisation_from_markers"])

prop("P15", "Region adjacency graphs are the quotient of the base graph by its regions",
     "The region adjacency graph of a labelisation has one vertex per connected component of equally labelled vertices and one edge per pair of adjacent regions, and that of a graph cut one vertex per component linked by null-weight edges, with vertex and edge maps that send every base vertex to its region and every base edge to the region-graph edge joining its two regions, or to nothing (-1) if it lies inside a region. "
     "Back-projecting vertex or edge weights copies each region's value to its elements (neutral 0 for edges inside a region), and accumulating over vertices or edges applies the accumulator to exactly the elements mapped to each region or region frontier. "
     "Projecting a fine region graph or labelisation to a coarse one maps each fine region to a coarse region with the largest overlap, and labels outside of the announced ranges are rejected.",
     ["inputs"], "all graphs, all labelisations (non contiguous labels, disconnected label classes), all edge cuts, all weights and accumulators",
     "Tests use one 2x3 grid; disconnected classes of one label, multi-edges between regions and arbitrary cuts are not covered.",
     [I + "algo/rag.hpp", H + "algo/rag.py", H + "algo/py_rag.cpp", I + "algo/alignment.hpp", H + "algo/alignment.py"],
     [("region flooding and edge registration", I + "algo/rag.hpp: make_region_adjacency_graph"), ("weight projection and accumulation", I + "algo/rag.hpp: rag_*"), ("largest overlap projection", I + "algo/alignment.hpp: project_fine_to_coarse_*")],
     observe=["make_region_adjacency_graph_from_*, rag_back_project_*, rag_accumulate_*, project_fine_to_coarse_*"])

prop("P16", "Conversions between graphs, cuts, partitions and matrices lose nothing",
     "Converting a labelisation to a graph cut marks exactly the edges whose extremities differ, converting a cut to a labelisation yields the connected components left by removing the non-null edges, and the composition of the two is the identity up to relabelling on connected regions. "
     "Adjacency matrix and undirected graph conversions (dense or sparse), sub-graph, vertex-induced sub-graph and line-graph constructions give exactly the edges, weights and index maps their definitions prescribe for every selection of edges or vertices. "
     "The partition bijection test is true exactly when two labelisations are equal up to renaming, and the minimal common value type of several arrays is a smallest type that represents all their values exactly (64-bit unsigned with signed integers excepted).",
     ["inputs"], "all graphs with parallel edges, self-loops and isolated vertices, all labelisations, edge/vertex subsets and matrices",
     "Tests use one example per function.",
     [I + "algo/graph_core.hpp", H + "algo/graph_core.py", H + "algo/py_graph_core.cpp", H + "hg_utils.py", I + "utils.hpp"],
     [("component labelling", I + "algo/graph_core.hpp: graph_cut_2_labelisation/labelisation_2_graph_cut"), ("matrix and subgraph conversions", H + "algo/graph_core.py"), ("bijection test", I + "utils.hpp: is_in_bijection")],
     observe=["graph_cut_2_labelisation, labelisation_2_graph_cut, undirected_graph_2_adjacency_matrix, adjacency_matrix_2_undirected_graph, subgraph, vertex_induced_subgraph, line_graph, is_in_bijection"])

prop("P17", "Region attributes equal direct measurement on each node's region",
     "For every hierarchy over a graph (image graph, arbitrary graph or region adjacency graph), each node's area, volume, perimeter, contour strength, frontier length and strength, mean vertex value (sum of the leaf values over the area), Gaussian model of the leaf values, compactness, moments of inertia and Mumford-Shah energy equal what is obtained by directly measuring the set of leaves below the node and the graph edges crossing its boundary or joining its children. "
     "Explicitly supplied leaf weights, edge lengths or perimeters replace the defaults, and on a region adjacency graph defaults aggregate from the underlying pixels; areas, perimeters and strengths do not wrap around when the supplied values have a small integer type.",
     ["inputs", "configurations"], "all trees over all leaf graphs, all vertex and edge weights (scalar or vectorial where allowed), explicit or default supporting attributes",
     "Tests compare one 3x3 example per attribute; vectorial data, n-ary and unary nodes, region adjacency graphs and non-default weights are barely reached.",
     [H + "attribute/tree_attributes.py", H + "attribute/graph_attributes.py", I + "attribute/tree_attribute.hpp", H + "attribute/py_tree_attributes.cpp", I + "accumulator/tree_accumulator.hpp"],
     [("recursive formulas", H + "attribute/tree_attributes.py"), ("compiled kernels", I + "attribute/tree_attribute.hpp: attribute_volume/attribute_moment_of_inertia/attribute_contour_strength"), ("default supporting attributes", H + "attribute/graph_attributes.py")],
     observe=["attribute_* functions"])

prop("P18", "Level and shape attributes follow their tree-theoretic definitions",
     "For every tree and altitudes, depth, regular altitudes, topological height, child rank, sibling, vertex lists, child pair products, sampling probabilities, height, extrema, extinction values and dynamics equal their definitions computed from the parent relation alone. "
     "In particular extrema are exactly the flat leaf-most components with no lower (or higher) descendant, and the extinction value of a node is the attribute value at which its extremum is absorbed by one with a larger value, each merge killing all but one surviving extremum.",
     ["inputs"], "all trees (n-ary, unary nodes, plateaus), all altitudes and base attributes, increasing or decreasing, increasing-direction option set automatically or explicitly",
     "Tests check one tree of about ten nodes per attribute; ties, plateaus and unary nodes drive the definitions and are not sampled.",
     [H + "attribute/tree_attributes.py", I + "attribute/tree_attribute.hpp", H + "attribute/py_tree_attributes.cpp", I + "accumulator/tree_accumulator.hpp", I + "algo/tree.hpp"],
     [("recursive formulas", H + "attribute/tree_attributes.py"), ("extrema and extinction", I + "attribute/tree_attribute.hpp: attribute_extrema/attribute_extinction_value"), ("child ranks and siblings", I + "attribute/tree_attribute.hpp: attribute_child_number/attribute_sibling")],
     observe=["attribute_* functions"])

prop("P19", "Aligning and fusing hierarchies preserve the partitions they come from",
     "Aligning a coarse hierarchy's saliency onto a fine partition (given as labels, a graph cut, or a hierarchy) assigns to every frontier edge of the fine partition the level at which the two fine regions it separates, each projected on a coarse region of largest overlap, merge in the coarse hierarchy, and zero inside fine regions. "
     "The fusion depth map of a family of trees without one-child nodes gives each leaf the length of the longest chain of strictly nested regions taken from any of the trees that contain it. "
     "Aligning a hierarchy on its own finest partition gives back its own saliency.",
     ["inputs"], "all pairs of fine partitions and coarse hierarchies on the same connected graph; all families of 1 to 4 trees on the same leaves",
     "Tests check one image each.",
     [I + "algo/alignment.hpp", H + "algo/alignment.py", H + "algo/py_alignement.cpp", I + "algo/tree_fusion.hpp", H + "algo/tree_fusion.py"],
     [("projection and level assignment", I + "algo/alignment.hpp"), ("inclusion graph and longest path", I + "algo/tree_fusion.hpp")],
     observe=["HierarchyAligner, align_hierarchies, tree_fusion_depth_map"])

prop("P20", "Energy-based cuts and monotonic regressions are optimal",
     "The optimal cut labelisation for given node energies and merge function (sum, min, max) has the best total energy among all cuts of the tree, and the optimal-energy-cut hierarchy (general or piecewise-constant Mumford-Shah) is a hierarchy in which the horizontal cut at any scale has minimal energy data + scale x regularisation among all cuts of the input tree. "
     "The Mumford-Shah binary partition tree of a graph without parallel edges merges at each step an adjacent pair of smallest apparition scale (exactly so when the energies are not approximated). "
     "Monotonic regression of node altitudes returns increasing values: the smallest ones above for 'max', the largest ones below for 'min', and the weighted least-squares optimum for 'least_square'.",
     ["inputs"], "all trees, node energies (increasing/decreasing as the functions require), weights, scales and approximation sizes",
     "Tests check one small tree each; optimality is a statement over all cuts, altitudes and scales.",
     [I + "algo/tree_energy_optimization.hpp", H + "algo/tree_energy_optimization.py", H + "algo/py_tree_energy_optimization.cpp", I + "algo/tree_monotonic_regression.hpp", H + "algo/tree_monotonic_regression.py"],
     [("dynamic programming on the tree", I + "algo/tree_energy_optimization.hpp: labelisation_optimal_cut_from_energy"), ("piecewise linear energy functions", I + "algo/tree_energy_optimization.hpp: piecewise_linear_energy_function"), ("regression", I + "algo/tree_monotonic_regression.hpp")],
     observe=["labelisation_optimal_cut_from_energy, hierarchy_to_optimal_*_cut_hierarchy, binary_partition_tree_MumfordShah_energy, tree_monotonic_regression"])

prop("P21", "Assessment scores match brute-force evaluation of their definitions",
     "Partition scores (bidirectional consistency error, directional Hamming, directional covering, with one or several ground truths and label maps numbered from 0) equal their set-overlap definitions and lie in [0, 1], with 1 for identical partitions. "
     "Each point of a horizontal-cut fragmentation curve is the score of that horizontal cut, each point of an optimal-cut curve is the best score among all cuts of the binary hierarchy having that many regions (with the returned cut attaining it), and the k/ground-truth/optimal derived values are consistent with the curve. "
     "Dendrogram purity, Dasgupta cost and tree sampling divergence equal their pairwise definitions over leaves and edges.",
     ["inputs"], "all pairs of labelisations, hierarchies and ground truths, all three measures, maximum region counts, regions and vertex maps, edge weights",
     "Tests use one image and truth; optimality over all cuts and pairwise sums over all leaves are not covered by fixed samples.",
     [I + "assessment/partition.hpp", I + "assessment/fragmentation_curve.hpp", I + "assessment/dendrogram_purity.hpp", H + "assessment/fragmentation_curve.py", H + "assessment/hierarchical_cost.py", H + "assessment/py_partition.cpp", H + "assessment/py_fragmentation_curve.cpp"],
     [("cardinality intersection tables", I + "assessment/partition.hpp"), ("optimal cut dynamic programming", I + "assessment/fragmentation_curve.hpp"), ("purity and costs", I + "assessment/dendrogram_purity.hpp")],
     observe=["assess_partition, assess_fragmentation_*, dendrogram_purity, dasgupta_cost, tree_sampling_divergence"])

prop("P22", "Bipartite tests and matchings are correct and optimal",
     "The bipartiteness test answers true exactly for graphs without odd cycle and then returns a colouring in which every edge joins two colours. "
     "The matching of any bipartite weighted graph is a valid matching of maximum cardinality and, among those, of minimum total weight, and pixel matching of two images matches the maximum number of pixels within the distance limit with minimal total distance (up to its fixed cost resolution). "
     "Non-bipartite inputs, and weights whose range is too large to be handled exactly, are rejected with an exception.",
     ["inputs"], "all graphs and weights (null, tied, isolated vertices, disconnected), all pairs of binary images and distance limits",
     "Tests use three fixed graphs; optimality and the degenerate weights are universal statements.",
     [I + "algo/bipartite_graph.hpp", H + "algo/bipartite_graph.py", H + "algo/py_bipartite_graph.cpp", "include/higra/algo/details/csa.hpp"],
     [("two-colouring", I + "algo/bipartite_graph.hpp: is_bipartite_graph"), ("reduction to perfect assignment", I + "algo/bipartite_graph.hpp: bipartite_graph_matching / " + H + "algo/bipartite_graph.py")],
     observe=["is_bipartite_graph, bipartite_graph_matching, match_pixels_image_2d"])

prop("P23", "Contour maps, Khalimsky images and orientations represent the graph cut",
     "Converting 4-adjacency edge weights of any image to a Khalimsky-grid contour map and back is the identity (with or without border), each grid element holding the weight of the edge it represents. "
     "Fitting contours to a graph cut produces polylines that cover every non-null edge exactly once, break only at the borders, ends and junctions of the cut, and whose subdivision splits each polyline into consecutive segments within the requested tolerance; orientations derived from them follow the fitted segments. "
     "Mean-pb style hierarchies assign every frontier a value computed only from the contour elements it comprises. The mean of two angles modulo pi is the middle of the shortest arc between them. The triangular filter applied before estimating gradient orientations is the convolution with its documented kernel.",
     ["inputs", "configurations"], "all image shapes, all edge cuts and weights, all subdivision parameters",
     "Tests use one or two small images with fixed contours.",
     [I + "image/graph_image.hpp", I + "image/contour_2d.hpp", I + "image/hierarchy_mean_pb.hpp", H + "image/graph_image.py", H + "image/contour_2d.py", H + "image/hierarchy_mean_pb.py", H + "image/py_contour_2d.cpp"],
     [("Khalimsky conversion", I + "image/graph_image.hpp: graph_4_adjacency_2_khalimsky/khalimsky_2_graph_4_adjacency"), ("contour following", I + "image/contour_2d.hpp: fit_contour_2d"), ("polyline subdivision", I + "image/contour_2d.hpp: subdivide")],
     observe=["graph_4_adjacency_2_khalimsky, khalimsky_2_graph_4_adjacency, fit_contour_2d, rag_2d_vertex_perimeter_and_edge_length, mean_pb_hierarchy"])

prop("P24", "Saved, pickled and exported objects come back equal",
     "Writing a tree with any set of named scalar node attributes to a file and reading it back returns the same tree and attributes, and writing an edge- and vertex-weighted graph (with optional image shape) in the Pink format and reading it back returns the same graph, weights and shape. "
     "Pickling and copying graphs (in any mutation state), trees, regular graphs, embeddings and lowest-common-ancestor structures restores objects that answer every query identically, including the tree category. "
     "Converting a binary hierarchy to a SciPy linkage matrix and back preserves the hierarchy, altitudes and areas, and malformed files are rejected with an exception instead of yielding data. The text drawing of a partition tree of distinct altitudes shows every leaf and node once, each node linked to its parent, at a position proportional to its altitude.",
     ["inputs", "histories"], "all trees with any attributes, all graphs reached by mutation, all grids, all binary hierarchies with increasing altitudes, all corrupted or truncated files",
     "Tests round-trip one object of each kind with one or two attributes.",
     [I + "io/tree_io.hpp", I + "io/pink_graph_io.hpp", I + "io/pnm_io.hpp", H + "io_utils/tree_io.py", H + "io_utils/pink_io.py", H + "io_utils/py_tree_io.cpp", H + "io_utils/py_pink_graph_io.cpp", H + "interop/py_scipy.cpp", H + "interop/interop_scipy.py", H + "structure/py_tree_graph.cpp", H + "structure/py_undirected_graph.cpp"],
     [("binary tree format", I + "io/tree_io.hpp"), ("Pink text/binary format", I + "io/pink_graph_io.hpp"), ("pickle support", H + "structure/*.cpp py::pickle"), ("linkage conversion", H + "interop")],
     observe=["save_tree/read_tree, save_graph_pink/read_graph_pink, pickle, scipy conversions"])

prop("P25", "Results never depend on hidden state: no input mutation, no stale cache",
     "Apart from functions documented to work in place, calling a library function with given arguments leaves every argument array, graph and tree observably unchanged, and the value it returns depends only on the arguments' contents (provided arguments whose results were cached are not modified by the caller afterwards, as documented): it is the same with attribute caching enabled or disabled, whatever other attribute computations were done before on the same objects, and after results of earlier calls were dropped. "
     "Attributes and tags set on an object are returned as set until cleared, clearing removes them, data attached to one object is never visible on another, and construct-specific metadata (leaf graph, grid shape, spanning-tree maps, pre-graph) attached by constructors is available to later calls.",
     ["histories", "inputs", "configurations"], "all interleavings of attribute computations with arbitrary explicit arguments, cache enabling/disabling/clearing and object deletion",
     "Tests call each attribute once on fresh objects with the cache in its default state.",
     [H + "data_cache.py", H + "concept.py", H + "hg_utils.py", H + "attribute/tree_attributes.py", H + "attribute/graph_attributes.py", H + "algo/tree.py"],
     [("automatic result cache", H + "data_cache.py: auto_cache"), ("object data store", H + "data_cache.py: DataCache/set_attribute"), ("concept argument resolution", H + "concept.py")],
     [("per-object cache", "weakly keyed map from object to cached results and attributes", H + "data_cache.py")],
     ["any function decorated for caching; set_attribute/get_attribute/clear_attributes/tags"])

prop("P26", "No call sequence with well-typed arguments corrupts memory or crashes",
     "Whatever well-typed arguments the public Python API is given - arrays of any size, value type, dimension, stride or memory order, indices in or out of range, trees and graphs of any shape including single-vertex and edgeless ones - the call either returns a result or raises an exception; it never reads or writes out of bounds, uses freed memory, or kills or hangs the process. "
     "Array arguments whose length does not match the graph or tree are rejected with an exception where lengths are documented to match, and a memory layout that is accepted gives the same result as any other; values of a type without a dedicated implementation are rejected or give the result of the same values in double precision. Graphs with removed edges give the results of the graphs without them. "
     "Objects returned by the library (iterators, cuts, graphs, arrays) stay valid for as long as they are referenced, even after the objects they were obtained from are gone (objects handed to a callback excepted, valid during the call only).",
     ["inputs", "histories"], "all argument shapes, lengths, value types and layouts, and all object lifetimes",
     "Tests only pass well-sized contiguous arrays and keep every object alive.",
     [I + "utils.hpp", I + "structure/tree_graph.hpp", I + "structure/undirected_graph.hpp", H + "py_common.hpp", H + "structure/py_common_graph.hpp", H + "hg_utils.py"],
     [("size assertions", I + "graph.hpp: hg_assert_*"), ("typed dispatch of arrays", H + "py_common.hpp"), ("lifetime policies of bindings", H + "structure/py_common_graph.hpp")],
     observe=["the whole Python API, under AddressSanitizer for the compiled part"])

prop("P27", "Sorting and core containers obey their contracts on every operation sequence",
     "Sorting and index sorting return an ordered permutation of the input for every value type, stably when stability is requested, lexicographically for rows of 2d arrays, with custom comparators respected. "
     "Every sequence of heap operations (push, pop, decrease, increase, update, erase, meld) keeps the heap's minimum, size and contents equal to those of a sorted multiset, union-find answers equal the partition defined by the links so far, and range-minimum queries return the position of a smallest element for all ranges. "
     "Portable image files written are read back identically for every supported type and size.",
     ["histories", "inputs"], "all operation sequences on the containers, all arrays and comparators",
     "Tests run one short scripted sequence per structure.",
     [I + "sorting.hpp", I + "structure/fibonacci_heap.hpp", I + "structure/unionfind.hpp", I + "structure/details/range_minimum_query.hpp", I + "io/pnm_io.hpp", H + "sorting.py", H + "py_sorting.cpp"],
     [("sorting wrappers", I + "sorting.hpp"), ("lazy consolidation of the heap", I + "structure/fibonacci_heap.hpp"), ("path compression and union by rank", I + "structure/unionfind.hpp")],
     observe=["C++ headers and hg.sort/hg.arg_sort"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
