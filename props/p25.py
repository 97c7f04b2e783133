"""P25: results depend on nothing but the arguments: no mutated input, no stale cache, no leaking attribute."""
import numpy as np
import higra as hg
from vlib.core import Sub, req, Skip
from vlib import gen as G
from vlib.ref import T, components
from vlib.hgc import mk_tree, mk_graph

A = hg.Accumulators


def seq(draw, n, hi):
    return G.seq(draw, n, hi + 1)


# ------------------------------------------------------------------ canonical form of any value
def canon(x, depth=0):
    if x is None or isinstance(x, (bool, int, float, str, bytes)):
        return repr(x)
    if isinstance(x, np.generic):
        return ("np", str(x.dtype), repr(x.item()))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("ao", x.shape, [canon(y, depth + 1) for y in x.ravel()])
        y = np.ascontiguousarray(x)
        if not y.dtype.isnative:
            y = y.astype(y.dtype.newbyteorder("="))
        if y.dtype.kind == "f":
            y = np.where(np.isnan(y), np.array(np.nan, dtype=y.dtype), y)
        return ("a", str(y.dtype), x.shape, y.tobytes())
    if isinstance(x, hg.Tree):
        return ("tree", x.parents().tobytes(), str(x.category()))
    if isinstance(x, hg.UndirectedGraph):
        s, t = x.edge_list()
        return ("graph", x.num_vertices(), s.tobytes(), t.tobytes())
    if isinstance(x, (tuple, list)):
        return ("l", [canon(y, depth + 1) for y in x])
    if isinstance(x, dict):
        return ("d", sorted((repr(k), canon(v, depth + 1)) for k, v in x.items()))
    if hasattr(x, "toarray"):
        return ("sp", canon(x.toarray()))
    if type(x).__name__.startswith("RegularGraph"):
        return ("rg", tuple(x.shape), canon(np.asarray(x.neighbour_list())))
    if hasattr(x, "__len__") and hasattr(x, "__getitem__"):
        return ("s", [canon(x[i], depth + 1) for i in range(len(x))])
    return ("?", type(x).__name__)


# ------------------------------------------------------------------ the world
class World:
    """every object a call may receive; the same case always gives the same contents"""

    def __init__(self, c):
        h, w = c["sh"]
        n = h * w
        self.sh = (h, w)
        self.g = hg.get_4_adjacency_graph((h, w))
        m = self.g.num_edges()
        self.n, self.m = n, m
        rng = np.random.RandomState(c["seed"] % 2 ** 32)
        lev = c["lev"]

        def r(k, *shape):
            return rng.randint(0, lev, size=shape).astype(c["dt"]) if k else rng.randint(0, lev, size=shape).astype(np.float64) / 4
        self.d = {}
        # two contents of each kind: the second is used to call the same function with other arguments
        self.d["ew"] = [r(1, m), r(1, m)]
        self.d["vw"] = [r(1, n), r(1, n)]
        self.d["vv"] = [r(0, n, 2), r(0, n, 2)]
        self.d["lab"] = [rng.randint(0, 3, size=n), rng.randint(0, 4, size=n)]
        self.d["seeds"] = [rng.randint(0, 3, size=n) * (rng.rand(n) < .5), rng.randint(0, 4, size=n) * (rng.rand(n) < .3)]
        self.d["va"] = [rng.randint(1, 5, size=n).astype(np.float64), rng.randint(1, 5, size=n).astype(np.float64)]
        self.d["el"] = [rng.randint(1, 5, size=m).astype(np.float64), rng.randint(1, 5, size=m).astype(np.float64)]
        self.d["cut"] = [rng.randint(0, 2, size=m), (rng.rand(m) < .8).astype(np.int64)]
        self.t, self.alt = hg.bpt_canonical(self.g, self.d["ew"][0].copy())
        N = self.t.num_vertices()
        self.d["alt"] = [np.asarray(self.alt), np.concatenate((np.zeros(n), np.cumsum(rng.randint(0, 3, size=N - n)))).astype(np.float64)]
        self.d["nw"] = [rng.randint(0, 9, size=N).astype(np.float64), rng.randint(0, 9, size=N).astype(np.float64)]
        self.d["nb"] = [rng.rand(N) < .4, rng.rand(N) < .6]
        self.ct, ca = hg.component_tree_max_tree(self.g, self.d["vw"][0].copy())
        NC = self.ct.num_vertices()
        self.d["calt"] = [np.asarray(ca), np.asarray(ca) * 2]
        self.d["cnw"] = [rng.randint(0, 9, size=NC).astype(np.float64), np.asarray(hg.attribute_area(self.ct, no_cache=True)).astype(np.float64)]
        self.d["cnb"] = [rng.rand(NC) < .4, rng.rand(NC) < .6]
        self.rag = hg.make_region_adjacency_graph_from_labelisation(self.g, self.d["lab"][0].copy())
        self.d["rew"] = [rng.randint(0, lev, size=self.rag.num_edges()).astype(np.float64) for _ in range(2)]
        self.d["rvw"] = [rng.randint(0, lev, size=self.rag.num_vertices()).astype(np.float64) for _ in range(2)]
        self.rt = None
        if len(components(self.rag.num_vertices(), list(zip(*[x.tolist() for x in self.rag.edge_list()])))) and self.rag.num_vertices() > 1:
            try:
                self.rt, ra = hg.bpt_canonical(self.rag, self.d["rew"][0].copy())
                self.d["ralt"] = [np.asarray(ra), np.asarray(ra) * 2]
            except ValueError:
                self.rt = None
        self.bt = hg.Tree(np.asarray(c["p"]))        # a tree without graph
        NB = self.bt.num_vertices()
        self.d["bnw"] = [rng.randint(0, 9, size=NB).astype(np.float64), rng.randint(0, 9, size=NB).astype(np.float64)]
        self.d["bleaf"] = [rng.randint(0, 9, size=self.bt.num_leaves()), rng.randint(0, 9, size=self.bt.num_leaves())]
        # the same graph without shape: its contour has a null length
        self.pg = hg.UndirectedGraph(n)
        if m:
            self.pg.add_edges(*[np.array(x) for x in self.g.edge_list()])
        self.pt, pa = hg.bpt_canonical(self.pg, self.d["ew"][0].copy())
        self.d["palt"] = [np.asarray(pa), np.asarray(pa) * 2]
        self.d["z"] = [np.zeros(n), np.zeros(m)]
        self.temp = False

    def a(self, name, k):
        x = self.d[name][k]
        return x.copy() if self.temp else x

    def drop(self, what):
        """forget an object and build it again"""
        if what == 0:
            p, alt = self.t.parents().copy(), None
            self.t = None
            self.t, _ = hg.bpt_canonical(self.g, self.d["ew"][0].copy())
        elif what == 1:
            self.ct = None
            self.ct, _ = hg.component_tree_max_tree(self.g, self.d["vw"][0].copy())
        elif what == 2:
            p = self.bt.parents().copy()
            self.bt = None
            self.bt = hg.Tree(p)
        else:
            for k in self.d:
                self.d[k] = [x.copy() for x in self.d[k]]

    def snapshot(self):
        s = {k: canon(v) for k, v in self.d.items()}
        for k in ("g", "t", "ct", "rag", "rt", "bt", "pg", "pt"):
            o = getattr(self, k)
            if o is None:
                continue
            s[k] = canon(o)
            for name in ("shape", "leaf_graph", "mst_edge_map", "vertex_map", "edge_map", "pre_graph"):
                s[k, name] = canon(hg.get_attribute(o, name))
        return s


CALLS = []


def call(f):
    CALLS.append(f)


def table():
    L = []

    def add(name, f):
        L.append((name, f))

    acc = [A.sum, A.min, A.max, A.mean, A.prod, A.counter]
    # trees with a leaf graph
    add("attribute_area", lambda w, k: hg.attribute_area(w.t) if k == 0 else hg.attribute_area(w.t, w.a("va", k)))
    add("attribute_area ct", lambda w, k: hg.attribute_area(w.ct, vertex_area=w.a("va", k)))
    add("attribute_volume", lambda w, k: hg.attribute_volume(w.t, w.a("alt", k)))
    add("attribute_volume area", lambda w, k: hg.attribute_volume(w.t, w.a("alt", k), area=w.a("nw", k)))
    add("attribute_lca_map", lambda w, k: hg.attribute_lca_map(w.t) if k else hg.attribute_lca_map(w.ct, w.g))
    add("attribute_frontier_length", lambda w, k: hg.attribute_frontier_length(w.t) if k == 0 else hg.attribute_frontier_length(w.t, w.a("el", k)))
    add("attribute_frontier_strength", lambda w, k: hg.attribute_frontier_strength(w.t, w.a("ew", k)))
    add("attribute_contour_length", lambda w, k: hg.attribute_contour_length(w.t) if k == 0 else hg.attribute_contour_length(w.t, edge_length=w.a("el", k)))
    add("attribute_contour_length ct", lambda w, k: hg.attribute_contour_length(w.ct, vertex_perimeter=w.a("va", k) * 8))
    add("attribute_contour_strength", lambda w, k: hg.attribute_contour_strength(w.t, w.a("ew", k)))
    add("attribute_contour_strength ct", lambda w, k: hg.attribute_contour_strength(w.ct, w.a("ew", k), edge_length=w.a("el", k)))
    add("attribute_compactness", lambda w, k: hg.attribute_compactness(w.t, normalize=bool(k)))
    add("attribute_compactness area", lambda w, k: hg.attribute_compactness(w.t, area=w.a("nw", k) + 1))
    add("attribute_mean_vertex_weights", lambda w, k: hg.attribute_mean_vertex_weights(w.t, w.a("vw", k)))
    add("attribute_mean_vertex_weights v", lambda w, k: hg.attribute_mean_vertex_weights(w.ct, w.a("vv", k)))
    add("attribute_mean_vertex_weights area", lambda w, k: hg.attribute_mean_vertex_weights(w.t, w.a("vw", 0), area=w.a("nw", k) + 1))
    add("attribute_sibling", lambda w, k: hg.attribute_sibling(w.t, 1 - 2 * k))
    add("attribute_depth", lambda w, k: hg.attribute_depth([w.t, w.bt][k]))
    add("attribute_regular_altitudes", lambda w, k: hg.attribute_regular_altitudes([w.t, w.bt][k]))
    add("attribute_regular_altitudes depth", lambda w, k: hg.attribute_regular_altitudes(w.t, depth=w.a("nw", k)))
    add("attribute_vertex_list", lambda w, k: hg.attribute_vertex_list([w.t, w.ct][k]))
    add("attribute_gaussian", lambda w, k: hg.attribute_gaussian_region_weights_model(w.t, w.a("vw", k)))
    add("attribute_gaussian v", lambda w, k: hg.attribute_gaussian_region_weights_model(w.t, w.a("vv", k)))
    add("attribute_extrema", lambda w, k: hg.attribute_extrema(w.t, w.a("alt", k)))
    add("attribute_extrema ct", lambda w, k: hg.attribute_extrema(w.ct, w.a("calt", k)))
    add("attribute_height", lambda w, k: hg.attribute_height(w.t, w.a("alt", k), True, ["parent", "altitude"][0]))
    add("attribute_height ct", lambda w, k: hg.attribute_height(w.ct, w.a("calt", k)))
    add("attribute_dynamics", lambda w, k: hg.attribute_dynamics(w.t, w.a("alt", k)))
    add("attribute_dynamics ct", lambda w, k: hg.attribute_dynamics(w.ct, w.a("calt", k), False))
    add("attribute_extinction_value", lambda w, k: hg.attribute_extinction_value(w.ct, w.a("calt", k), w.a("cnw", 1)))
    add("attribute_child_number", lambda w, k: hg.attribute_child_number([w.t, w.bt][k]))
    add("attribute_children_pair_sum_product", lambda w, k: hg.attribute_children_pair_sum_product(w.bt, w.a("bnw", k)))
    add("attribute_tree_sampling_probability", lambda w, k: hg.attribute_tree_sampling_probability(w.t, w.g, w.a("ew", k) + 1, ["edge", "null"][k]))
    add("attribute_topological_height", lambda w, k: hg.attribute_topological_height([w.t, w.bt][k]))
    add("attribute_moment_of_inertia", lambda w, k: hg.attribute_moment_of_inertia([w.t, w.ct][k]))
    add("attribute_MS_energy", lambda w, k: hg.attribute_piecewise_constant_Mumford_Shah_energy(w.t, w.a("vw", 0), [1.0, 7.5][k]))
    # graphs
    add("attribute_edge_length", lambda w, k: hg.attribute_edge_length([w.g, w.rag][k]))
    add("attribute_vertex_area", lambda w, k: hg.attribute_vertex_area([w.g, w.rag][k]))
    add("attribute_vertex_perimeter", lambda w, k: hg.attribute_vertex_perimeter([w.g, w.rag][k]))
    add("attribute_vertex_perimeter el", lambda w, k: hg.attribute_vertex_perimeter(w.g, edge_length=w.a("el", k)))
    add("attribute_vertex_coordinates", lambda w, k: hg.attribute_vertex_coordinates(w.g))
    # accumulators and propagation
    for i, ac in enumerate(acc[:5]):
        add("accumulate_parallel %d" % i, lambda w, k, ac=ac: hg.accumulate_parallel(w.t, w.a("nw", k), ac))
        add("accumulate_sequential %d" % i, lambda w, k, ac=ac: hg.accumulate_sequential(w.t, w.a("vv", k), ac))
    add("accumulate_and_add", lambda w, k: hg.accumulate_and_add_sequential(w.t, w.a("nw", k), w.a("va", k), A.sum))
    add("accumulate_and_max", lambda w, k: hg.accumulate_and_max_sequential(w.bt, w.a("bnw", k), w.a("bleaf", k), A.max))
    add("accumulate_and_min", lambda w, k: hg.accumulate_and_min_sequential(w.bt, w.a("bnw", k), w.a("bleaf", k), A.min))
    add("accumulate_and_multiply", lambda w, k: hg.accumulate_and_multiply_sequential(w.bt, w.a("bnw", k), w.a("bleaf", k), A.sum))
    add("propagate_parallel", lambda w, k: hg.propagate_parallel(w.t, w.a("nw", k), w.a("nb", k)))
    add("propagate_sequential", lambda w, k: hg.propagate_sequential(w.t, w.a("nw", k), w.a("nb", k)))
    add("propagate_sequential_and_accumulate", lambda w, k: hg.propagate_sequential_and_accumulate(w.t, w.a("nw", k), A.sum, w.a("nb", k)))
    add("accumulate_at", lambda w, k: hg.accumulate_at(w.a("lab", k), w.a("vw", k), A.max))
    add("accumulate_graph_edges", lambda w, k: hg.accumulate_graph_edges(w.g, w.a("ew", k), A.max))
    add("accumulate_graph_vertices", lambda w, k: hg.accumulate_graph_vertices(w.g, w.a("vv", k), A.max))
    add("accumulate_on_contours", lambda w, k: hg.accumulate_on_contours(w.t, w.a("nw", k), A.max, None) if False else hg.accumulate_on_contours(w.t, w.a("nw", k), A.max))
    # hierarchies
    add("bpt_canonical", lambda w, k: hg.bpt_canonical(w.g, w.a("ew", k)))
    add("bpt_canonical sorted", lambda w, k: hg.bpt_canonical(w.g, sorted_edge_indices=np.argsort(w.a("ew", k), kind="stable")))
    add("quasi_flat_zone_hierarchy", lambda w, k: hg.quasi_flat_zone_hierarchy(w.g, w.a("ew", k)))
    add("component_tree_min_tree", lambda w, k: hg.component_tree_min_tree(w.g, w.a("vw", k)))
    add("component_tree_max_tree", lambda w, k: hg.component_tree_max_tree(w.g, w.a("vw", k)))
    add("tree_of_shapes", lambda w, k: hg.component_tree_tree_of_shapes_image2d(w.a("vw", k).reshape(w.sh)))
    add("multivariate_tree_of_shapes", lambda w, k: hg.component_tree_multivariate_tree_of_shapes_image2d(w.a("vv", k).reshape(w.sh + (2,))))
    add("bpt single", lambda w, k: hg.binary_partition_tree_single_linkage(w.g, w.a("ew", k)))
    add("bpt complete", lambda w, k: hg.binary_partition_tree_complete_linkage(w.g, w.a("ew", k)))
    add("bpt average", lambda w, k: hg.binary_partition_tree_average_linkage(w.g, w.a("ew", k), w.a("el", k)))
    add("bpt exponential", lambda w, k: hg.binary_partition_tree_exponential_linkage(w.g, w.a("ew", k), [0.5, -0.5][k], w.a("el", 0)))
    add("bpt ward", lambda w, k: hg.binary_partition_tree_ward_linkage(w.g, w.a("vv", k), w.a("va", k)))
    add("bpt ward none", lambda w, k: hg.binary_partition_tree_ward_linkage(w.g, w.a("vv", k), altitude_correction=["max", "none"][k]))
    add("bpt MS", lambda w, k: hg.binary_partition_tree_MumfordShah_energy(w.g, w.a("vw", k)))
    add("bpt MS explicit", lambda w, k: hg.binary_partition_tree_MumfordShah_energy(w.g, w.a("vv", k), w.a("va", k), w.a("va", k) * 4, w.a("el", k)))
    add("constrained alpha omega", lambda w, k: hg.constrained_connectivity_hierarchy_alpha_omega(w.g, w.a("vw", k)))
    add("constrained strong", lambda w, k: hg.constrained_connectivity_hierarchy_strong_connection(w.g, w.a("ew", k)))
    add("watershed_area", lambda w, k: hg.watershed_hierarchy_by_area(w.g, w.a("ew", k)))
    add("watershed_area va", lambda w, k: hg.watershed_hierarchy_by_area(w.g, w.a("ew", 0), vertex_area=w.a("va", k)))
    add("watershed_volume", lambda w, k: hg.watershed_hierarchy_by_volume(w.g, w.a("ew", k)))
    add("watershed_dynamics", lambda w, k: hg.watershed_hierarchy_by_dynamics(w.g, w.a("ew", k)))
    add("watershed_parents", lambda w, k: hg.watershed_hierarchy_by_number_of_parents(w.g, w.a("ew", k), canonize_tree=bool(k)))
    add("watershed_attribute", lambda w, k: hg.watershed_hierarchy_by_attribute(w.g, w.a("ew", k), lambda t, a: hg.attribute_area(t)))
    # labels, cuts, saliency
    add("labelisation_watershed", lambda w, k: hg.labelisation_watershed(w.g, w.a("ew", k)))
    add("labelisation_seeded_watershed", lambda w, k: hg.labelisation_seeded_watershed(w.g, w.a("ew", k), w.a("seeds", k)))
    add("labelisation_2_graph_cut", lambda w, k: hg.labelisation_2_graph_cut(w.g, w.a("lab", k)))
    add("graph_cut_2_labelisation", lambda w, k: hg.graph_cut_2_labelisation(w.g, w.a("cut", k)))
    add("weight_graph", lambda w, k: hg.weight_graph(w.g, w.a("vv", k), [hg.WeightFunction.L1, hg.WeightFunction.L2][k]))
    add("saliency", lambda w, k: hg.saliency(w.t, w.a("alt", k)))
    add("saliency rag", lambda w, k: hg.saliency(w.rt, w.a("ralt", k)) if w.rt is not None else None)
    add("saliency rag no", lambda w, k: hg.saliency(w.rt, w.a("ralt", k), handle_rag=False) if w.rt is not None else None)
    add("cut threshold", lambda w, k: hg.labelisation_horizontal_cut_from_threshold(w.t, w.a("alt", k), [1, 3][k]))
    add("cut regions", lambda w, k: hg.labelisation_horizontal_cut_from_num_regions(w.t, w.a("alt", 1), [2, 3][k]))
    add("cut explorer", lambda w, k: explore(w.t, w.a("alt", k)))
    add("cut explorer rag", lambda w, k: explore(w.rt, w.a("ralt", k)) if w.rt is not None else None)
    add("labelisation optimal cut", lambda w, k: hg.labelisation_optimal_cut_from_energy(w.t, w.a("nw", k)))
    add("supervertices", lambda w, k: hg.labelisation_hierarchy_supervertices(w.t, w.a("alt", k)))
    add("reconstruct_leaf_data", lambda w, k: hg.reconstruct_leaf_data(w.ct, w.a("calt", k), w.a("cnb", k)))
    add("reconstruct_leaf_data plain", lambda w, k: hg.reconstruct_leaf_data(w.t, w.a("nw", k)))
    add("ultrametric_open", lambda w, k: hg.ultrametric_open(w.g, w.a("ew", k)))
    add("minimum_spanning_tree", lambda w, k: (lambda r: (r, hg.CptMinimumSpanningTree.get_edge_map(r)))(hg.minimum_spanning_tree(w.g, w.a("ew", k))))
    add("binary_labelisation_from_markers", lambda w, k: hg.binary_labelisation_from_markers(w.t, w.a("lab", k) == 1, w.a("lab", k) == 2))
    # trees
    add("simplify_tree", lambda w, k: hg.simplify_tree(w.t, w.a("nb", k)))
    add("simplify_tree leaves", lambda w, k: hg.simplify_tree(w.t, w.a("nb", k), True))
    add("canonize_hierarchy", lambda w, k: hg.canonize_hierarchy(w.t, w.a("alt", k), return_node_map=bool(k)))
    add("sort_hierarchy_with_altitudes", lambda w, k: hg.sort_hierarchy_with_altitudes(w.t, w.a("alt", k)))
    add("tree_2_binary_tree", lambda w, k: hg.tree_2_binary_tree([w.bt, w.ct][k]))
    add("test_altitudes_increasingness", lambda w, k: hg.test_altitudes_increasingness(w.t, w.a("nw", k)))
    add("filter_small_nodes", lambda w, k: hg.filter_small_nodes_from_tree(w.t, w.a("alt", k), [2, 4][k], canonize_tree=bool(k)))
    add("filter_weak_frontier", lambda w, k: hg.filter_weak_frontier_nodes_from_tree(w.t, w.a("alt", k), w.a("ew", k), [1, 2][k]))
    add("filter_non_relevant", lambda w, k: hg.filter_non_relevant_node_from_tree(w.t, w.a("alt", k), lambda t, a: hg.attribute_area(t) < 3))
    add("tree_monotonic_regression", lambda w, k: hg.tree_monotonic_regression(w.t, w.a("nw", k), ["min", "max"][k]))
    add("tree_monotonic_regression ls", lambda w, k: hg.tree_monotonic_regression(w.t, w.a("nw", k), "least_square"))
    add("find_region", lambda w, k: w.t.find_region(np.arange(w.n), [1, 2][k], w.a("alt", 1)))
    add("lowest_common_ancestor", lambda w, k: w.t.lowest_common_ancestor(np.arange(w.n), np.roll(np.arange(w.n), 1 + k)))
    add("lca preprocess", lambda w, k: (w.t.lowest_common_ancestor_preprocess(["sparse_table", "sparse_table_block"][k]), None)[1])
    add("sub_tree", lambda w, k: w.t.sub_tree(w.t.root() - (k if w.t.num_vertices() > 1 and not w.t.is_leaf(w.t.root() - 1) else 0)))
    add("children", lambda w, k: [list(w.bt.children(i)) for i in range(w.bt.num_vertices())])
    add("children clear", lambda w, k: (w.bt.clear_children() if k else w.bt._compute_children(), None)[1])
    add("optimal energy cut hierarchy", lambda w, k: hg.hierarchy_to_optimal_energy_cut_hierarchy(w.t, w.a("nw", k), w.a("nw", 1 - k)))
    add("optimal MS cut hierarchy", lambda w, k: hg.hierarchy_to_optimal_MumfordShah_energy_cut_hierarchy(w.t, w.a("vw", k)))
    add("align_hierarchies", lambda w, k: hg.align_hierarchies(w.g, w.a("lab", k), ((w.t, w.a("alt", 1)),)) if False else (lambda m: (m(w.t, w.a("alt", k))))(coarse(w)))
    add("tree_fusion_depth_map", lambda w, k: hg.tree_fusion_depth_map(w.ct, w.ct2(k)))
    # graphs
    add("subgraph", lambda w, k: hg.subgraph(w.g, np.arange(k, w.m, 2), bool(k)))
    add("vertex_induced_subgraph", lambda w, k: hg.vertex_induced_subgraph(w.g, np.arange(k, w.n, 2)))
    add("line_graph", lambda w, k: hg.line_graph([w.g, w.rag][k]))
    add("adjacency", lambda w, k: hg.undirected_graph_2_adjacency_matrix(w.g, w.a("ew", k), sparse=bool(k)))
    add("bipartite", lambda w, k: hg.is_bipartite_graph([w.g, w.rag][k]))
    add("rag labels", lambda w, k: ragdata(hg.make_region_adjacency_graph_from_labelisation(w.g, w.a("lab", k))))
    add("rag cut", lambda w, k: ragdata(hg.make_region_adjacency_graph_from_graph_cut(w.g, w.a("cut", k))))
    add("rag back vertex", lambda w, k: hg.rag_back_project_vertex_weights(w.rag, w.a("rvw", k)))
    add("rag back edge", lambda w, k: hg.rag_back_project_edge_weights(w.rag, w.a("rew", k)))
    add("rag acc vertex", lambda w, k: hg.rag_accumulate_on_vertices(w.rag, A.sum, w.a("vw", k)))
    add("rag acc edge", lambda w, k: hg.rag_accumulate_on_edges(w.rag, A.max, w.a("ew", k)))
    add("khalimsky", lambda w, k: hg.graph_4_adjacency_2_khalimsky(w.g, w.a("ew", k), add_extra_border=bool(k)))
    add("khalimsky back", lambda w, k: hg.khalimsky_2_graph_4_adjacency(hg.graph_4_adjacency_2_khalimsky(w.g, w.a("ew", k))))
    add("fit_contour_2d", lambda w, k: contour(w, k))
    add("rag_2d_perimeter", lambda w, k: hg.rag_2d_vertex_perimeter_and_edge_length(w.rag))
    add("mean_pb", lambda w, k: hg.mean_pb_hierarchy(w.g, w.a("ew", k).astype(np.float64), w.sh))
    add("oriented_watershed", lambda w, k: hg.oriented_watershed(w.g, w.a("ew", k).astype(np.float64), w.sh))
    add("linearize", lambda w, k: hg.linearize_vertex_weights(w.a("vv", k).reshape(w.sh + (2,)), w.g))
    add("delinearize", lambda w, k: hg.delinearize_vertex_weights(w.a("vv", k), w.g))
    # assessment
    add("dendrogram_purity", lambda w, k: hg.dendrogram_purity(w.t, w.a("lab", k)))
    add("dasgupta_cost", lambda w, k: hg.dasgupta_cost(w.t, w.a("ew", k)))
    add("tree_sampling_divergence", lambda w, k: hg.tree_sampling_divergence(w.t, w.a("ew", k) + 1))
    add("fragmentation", lambda w, k: frag(hg.assess_fragmentation_optimal_cut(w.t, canonlab(w.a("lab", k)), hg.OptimalCutMeasure.BCE)))
    add("fragmentation h", lambda w, k: frag(hg.assess_fragmentation_horizontal_cut(w.t, w.a("alt", 1), canonlab(w.a("lab", k)), hg.PartitionMeasure.BCE)))
    add("assess_partition", lambda w, k: hg.assess_partition(canonlab(w.a("lab", 0)), canonlab(w.a("lab", k)), hg.PartitionMeasure.BCE))
    # conversions and sorting
    add("linkage matrix", lambda w, k: hg.binary_hierarchy_to_scipy_linkage_matrix(w.t, w.a("alt", 1), w.a("nw", k)) if k else hg.binary_hierarchy_to_scipy_linkage_matrix(w.t))
    add("sort", lambda w, k: (lambda x: (hg.sort(x, stable=bool(k)), x))(np.array(w.a("ew", k))))
    add("arg_sort", lambda w, k: hg.arg_sort(w.a("vw", k), stable=True))
    add("is_in_bijection", lambda w, k: hg.is_in_bijection(w.a("lab", 0), w.a("lab", k)))
    add("common type", lambda w, k: hg.cast_to_common_type(w.a("vw", k), w.a("lab", k)))
    add("project_fine_to_coarse", lambda w, k: hg.project_fine_to_coarse_labelisation(canonlab(w.a("lab", k)), canonlab(w.a("lab", 1 - k))))
    return L


def canonlab(l):
    return np.unique(l, return_inverse=True)[1].reshape(np.shape(l))


def ragdata(r):
    return r, hg.CptRegionAdjacencyGraph.get_vertex_map(r), hg.CptRegionAdjacencyGraph.get_edge_map(r)


def frag(c):
    return c.num_regions(), c.scores(), c.num_regions_normalized(), c.num_regions_ground_truth()


def explore(t, a):
    e = hg.HorizontalCutExplorer(t, a)
    c = e.horizontal_cut_from_index(e.num_cuts() // 2)
    return e.num_cuts(), np.asarray(e.num_regions_cuts()), np.asarray(e.altitude_cuts()), sorted(np.asarray(c.nodes()).tolist()), c.labelisation_leaves(t)


def coarse(w):
    al = hg.align_hierarchies if False else hg.HierarchyAligner.from_labelisation(w.g, np.arange(w.n) // 2)
    return lambda t, a: al.align_hierarchy(t, a)


def contour(w, k):
    c = hg.fit_contour_2d(w.g, w.sh, w.a("cut", k))
    c.subdivide(0.1, True, 0)
    return sorted([[int(e[0]) for e in s] for s in p] for p in c)


def _ct2(w, k):
    return hg.component_tree_max_tree(w.g, w.d["vw"][k].copy())[0]


World.ct2 = _ct2


def _more(L):
    """appended entries: the indices of the others are used by the recorded cases"""
    def add(name, f):
        L.append((name, f))
    for nm, tr in (("plain", "pt"), ("rag", "rt")):
        # every quantity whose definition uses another one that may come from the cache
        def al(w, k, tr=tr):
            return w.a("palt" if tr == "pt" else "ralt", k)

        def ews(w, k, tr=tr):
            return w.a("ew" if tr == "pt" else "rew", k)
        def vws(w, k, tr=tr):
            return w.a("vw" if tr == "pt" else "rvw", k)
        add("attribute_contour_length " + nm, lambda w, k, tr=tr: hg.attribute_contour_length(getattr(w, tr)))
        add("attribute_contour_strength " + nm, lambda w, k, tr=tr, f=ews: hg.attribute_contour_strength(getattr(w, tr), f(w, k)))
        add("attribute_frontier_length " + nm, lambda w, k, tr=tr: hg.attribute_frontier_length(getattr(w, tr)))
        add("attribute_frontier_strength " + nm, lambda w, k, tr=tr, f=ews: hg.attribute_frontier_strength(getattr(w, tr), f(w, k)))
        add("attribute_area " + nm, lambda w, k, tr=tr: hg.attribute_area(getattr(w, tr)))
        add("attribute_volume " + nm, lambda w, k, tr=tr, f=al: hg.attribute_volume(getattr(w, tr), f(w, k)))
        add("attribute_compactness " + nm, lambda w, k, tr=tr: hg.attribute_compactness(getattr(w, tr)))
        add("attribute_gaussian " + nm, lambda w, k, tr=tr, f=vws: hg.attribute_gaussian_region_weights_model(getattr(w, tr), f(w, k)))
        add("attribute_mean_vertex_weights " + nm, lambda w, k, tr=tr, f=vws: hg.attribute_mean_vertex_weights(getattr(w, tr), f(w, k)))
        add("attribute_lca_map " + nm, lambda w, k, tr=tr: hg.attribute_lca_map(getattr(w, tr)))
        add("attribute_vertex_perimeter " + nm, lambda w, k, tr=tr: hg.attribute_vertex_perimeter(w.pg if tr == "pt" else w.rag))
        add("attribute_edge_length " + nm, lambda w, k, tr=tr: hg.attribute_edge_length(w.pg if tr == "pt" else w.rag))
        add("attribute_tree_sampling_probability " + nm, lambda w, k, tr=tr, f=ews: hg.attribute_tree_sampling_probability(getattr(w, tr), w.pg if tr == "pt" else w.rag, f(w, k), ["edge", "null"][k]))
    # null perimeters / lengths given explicitly, then read again
    add("attribute_contour_strength zero", lambda w, k: hg.attribute_contour_strength(w.t, w.a("ew", k), vertex_perimeter=w.d["z"][0]))
    add("attribute_contour_strength zero2", lambda w, k: hg.attribute_contour_strength(w.t, w.a("ew", k), vertex_perimeter=w.d["z"][0], edge_length=w.d["z"][1]))
    add("attribute_contour_length zero", lambda w, k: hg.attribute_contour_length(w.t, w.d["z"][0], w.d["z"][1]))
    add("attribute_contour_length zero2", lambda w, k: hg.attribute_contour_length(w.t, vertex_perimeter=w.d["z"][0]))
    return L


TABLE = _more(table())
# calls that share cached intermediate results
FAMILY = {}
for _i, (_n, _f) in enumerate(TABLE):
    _k = _n.split()
    FAMILY.setdefault(_k[1] if len(_k) > 1 and _k[1] in ("plain", "rag", "ct") else "zero" if len(_k) > 1 and _k[1].startswith("zero") else "t", []).append(_i)
FAMILY["zero"] += [_i for _i, (_n, _f) in enumerate(TABLE) if _n in ("attribute_contour_length", "attribute_contour_strength", "attribute_compactness")]
FAM = [FAMILY[k] for k in sorted(FAMILY)]


def s_history(draw):
    h, w = G.integer(draw, 1, G.sz(5, 2)), G.integer(draw, 2, G.sz(5, 2))
    ops = []
    pool = G.choice(draw, FAM) if draw(G.st.booleans()) else list(range(len(TABLE)))
    foc = [G.choice(draw, pool) for _ in range(G.integer(draw, 1, 4))]
    for _ in range(G.integer(draw, 4, 16)):
        k = G.integer(draw, 0, 11)
        i = G.choice(draw, foc) if k >= 5 else G.integer(draw, 0, len(TABLE) - 1)
        if k == 0:
            ops.append(["cache", G.integer(draw, 0, 4), i])
        elif k == 1:
            ops.append(["drop", G.integer(draw, 0, 3)])
        else:
            ops.append(["call", i, G.integer(draw, 0, 1), G.integer(draw, 0, 1)])
    return {"sh": [h, w], "seed": G.seed32(draw), "lev": G.choice(draw, [2, 4, 12]), "dt": G.choice(draw, ["float64", "int32", "int64", "uint8"]),
            "p": G.tree(draw, max_leaves=7, max_inner=5, unary=True, min_leaves=1), "ops": ops}


class NoCache:
    def __init__(self, state):
        self.s = state

    def __enter__(self):
        self.old = hg.get_auto_cache_state()
        hg.set_auto_cache_state(self.s)

    def __exit__(self, *a):
        hg.set_auto_cache_state(self.old)


def run(f, w, k):
    try:
        return "ok", canon(f(w, k))
    except Exception as e:
        return "exc", type(e).__name__


def c_history(c, ctx):
    hg.set_auto_cache_state(True)
    w = World(c)
    base = w.snapshot()
    ref = {}
    good = 0
    try:
        for op in c["ops"]:
            if op[0] == "cache":
                if op[1] == 0:
                    hg.set_auto_cache_state(not hg.get_auto_cache_state())
                elif op[1] == 1:
                    hg.clear_auto_cache()
                elif op[1] == 2:
                    hg.clear_auto_cache(reference_object=w.t)
                elif op[1] == 3:
                    hg.clear_auto_cache(function=TABLE[op[2]][0].split()[0])
                else:
                    hg.clear_auto_cache(function="attribute_area", reference_object=w.ct)
                ctx.ev("cache operation")
                continue
            if op[0] == "drop":
                w.drop(op[1])
                continue
            name, f = TABLE[op[1]]
            k = op[2]
            w.temp = bool(op[3])
            r = run(f, w, k)
            if (op[1], k) not in ref:
                with NoCache(False):
                    v = World(c)
                    ref[op[1], k] = run(f, v, k)
                    vs = v.snapshot()
                    if vs != base:
                        req(False, name, "changed its arguments (fresh objects)", [x for x in base if vs.get(x) != base[x]])
            e = ref[op[1], k]
            if r != e:
                req(False, name, "variant", k, "gave", show(r), "but", show(e), "on fresh objects without cache")
            s = w.snapshot()
            if s != base:
                req(False, name, "variant", k, "changed", [x for x in base if s.get(x) != base[x]])
            if r[0] == "ok":
                good += 1
                ctx.ev(name)
            else:
                ctx.ev("exception " + name)
    finally:
        hg.set_auto_cache_state(True)
        hg.clear_auto_cache()
    return good >= 4


def show(x):
    return repr(x)[:300]


# every function of the table, called twice on the same objects with both variants: a sweep
def s_sweep(draw):
    h, w = G.integer(draw, 1, G.sz(5, 2)), G.integer(draw, 2, G.sz(6, 2))
    k = G.integer(draw, 0, len(TABLE) - 1)
    return {"sh": [h, w], "seed": G.seed32(draw), "lev": G.choice(draw, [2, 4, 12]), "dt": G.choice(draw, ["float64", "int32", "int64", "uint8", "float32"]),
            "p": G.tree(draw, max_leaves=7, max_inner=5, unary=True, min_leaves=1),
            "ops": [["call", i % len(TABLE), v, tmp] for i in range(k, k + 12) for v, tmp in ((0, 0), (1, 0), (0, 1), (1, 1), (0, 0))]}


# ------------------------------------------------------------------ attributes and tags
class Plain:
    pass


class Slots:
    __slots__ = ["x", "__weakref__"]


def fresh(kind):
    if kind == 0:
        return hg.Tree((2, 2, 2))
    if kind == 1:
        return hg.UndirectedGraph(2)
    if kind == 2:
        return Plain()
    if kind == 3:
        return np.zeros(3)
    if kind == 4:
        return Slots()
    if kind == 5:
        return hg.RegularGraph2d((2, 2), [[0, 1]])
    return hg.EmbeddingGrid2d((2, 3))


ATT = ["foo", "bar", "altitudes_x", "zz"]


def s_attr(draw):
    n = G.integer(draw, 1, 4)
    ops = []
    for _ in range(G.integer(draw, 3, 40)):
        ops.append([G.integer(draw, 0, 12), G.integer(draw, 0, n - 1), G.integer(draw, 0, 3), G.integer(draw, 0, 3)])
    return {"kinds": [G.integer(draw, 0, 6) for _ in range(n)], "ops": ops}


def c_attr(c, ctx):
    n = len(c["kinds"])
    ob = [fresh(k) for k in c["kinds"]]
    dyn = [hasattr(o, "__dict__") for o in ob]
    mod = [dict() for _ in ob]
    base = [set(hg.list_attributes(o)) for o in ob]
    tags = [set() for _ in ob]
    dd = [dict() for _ in ob]
    vals = [1, "text", (1, 2), [3]]

    def verify(why):
        for i in range(n):
            for a in ATT:
                req(hg.get_attribute(ob[i], a) is mod[i].get(a), why, "attribute", a, "of object", i, "is", hg.get_attribute(ob[i], a), "expected", mod[i].get(a))
                if dyn[i]:
                    req(ob[i].__dict__.get(a) is dd[i].get(a), why, "member", a, "of object", i, "is", ob[i].__dict__.get(a))
            req({x for x in hg.list_attributes(ob[i]) if x in ATT} == set(mod[i]), why, "list of attributes of", i, hg.list_attributes(ob[i]), "expected", sorted(mod[i]))
            for a in ATT:
                req(hg.has_tag(ob[i], a) == (a in tags[i]), why, "tag", a, "of object", i, "is", hg.has_tag(ob[i], a))
    for op, i, a, v in c["ops"]:
        name = ATT[a]
        if op <= 3:
            hg.set_attribute(ob[i], name, vals[v])
            mod[i][name] = vals[v]
            if dyn[i]:
                dd[i][name] = vals[v]
        elif op == 4:
            hg.set_attribute(ob[i], name, vals[v], insert_dynamic=False)
            mod[i][name] = vals[v]
        elif op == 5:
            hg.clear_attributes(ob[i], name)
            mod[i].pop(name, None)
            dd[i].pop(name, None)
        elif op == 6:
            hg.clear_attributes(ob[i], name, ATT[v])
            for x in (name, ATT[v]):
                mod[i].pop(x, None)
                dd[i].pop(x, None)
        elif op == 7 and dyn[i]:
            hg.clear_attributes(ob[i])
            for x in list(mod[i]):
                mod[i].pop(x, None)
                dd[i].pop(x, None)
            req(not [x for x in hg.list_attributes(ob[i]) if x in ATT], "clear_attributes left attributes", hg.list_attributes(ob[i]))
            ctx.ev("clear all")
        elif op <= 9:
            hg.add_tag(ob[i], name)
            tags[i].add(name)
        elif op == 10 and name in tags[i]:
            hg.remove_tag(ob[i], name)
            tags[i].remove(name)
        elif op == 11:
            # the object dies; another one of the same type takes its place
            ob[i] = None
            ob[i] = fresh(c["kinds"][i])
            mod[i], tags[i], dd[i] = {}, set(), {}
            ctx.ev("object replaced")
        elif op == 12:
            hg.clear_auto_cache()
        verify("after operation %d:" % op)
    return len(c["ops"]) >= 5


# ------------------------------------------------------------------ the cache decorator
POOL = [0, 1, 2, True, False, 1.0, 2.0, 0.5, "a", "b", "1", None, (1, 2), (2, 1), (1, (2, 3)), (1, 2, 3), [1, 2], [2, 1], [1, [2]], {"a": 1}, {"b": 1},
        {"a": "b", "c": "d"}, {"a": "d", "c": "b"}, {1, 2}, {1, 3}, (), [], {}, -1, -2, 2 ** 61 - 1, "", (0,), ((),), {"a": [1, 2]}, {"a": [2, 1]}]

# values that a careless cache key confuses
CONFUSED = [[(1, 2), [1, 2], {1, 2}, (2, 1), [2, 1]], [(), [], {}, ((),), "", None], [1, True, 1.0, "1"], [0, False, 0.5, ""],
            [(1, (2, 3)), (1, 2, 3), [1, [2]], [1, 2]], [{"a": 1}, {"b": 1}, {"a": [1, 2]}, {"a": [2, 1]}], [{"a": "b", "c": "d"}, {"a": "d", "c": "b"}],
            [-1, -2, 2 ** 61 - 1, 0], [(0,), 0, ((),), False], [{1, 2}, {1, 3}, (1, 2)]]


def _same(a, b):
    return type(a) is type(b) and repr(a) == repr(b)


CONFUSED = [[next(i for i, v in enumerate(POOL) if _same(v, x)) for x in grp] for grp in CONFUSED]
SIMPLE = {i for i, v in enumerate(POOL) if v is None or v == 0 and type(v) is int or v in (0.5, "a", "b") or type(v) is int and v == 2}


def s_auto(draw):
    ops = []
    for _ in range(G.integer(draw, 2, 30)):
        ops.append([G.integer(draw, 0, 9), G.integer(draw, 0, 2), G.integer(draw, 0, len(POOL) + 3), G.integer(draw, 0, len(POOL) + 3), G.integer(draw, 0, 3)])
    foc = [G.integer(draw, 0, len(POOL) + 3) for _ in range(2)]
    if G.integer(draw, 0, 3):
        foc = [0, G.integer(draw, 0, len(POOL) + 3)]
        grp = G.choice(draw, CONFUSED)
        one = draw(G.st.booleans())         # one function and one object only
        for o in ops:
            if one:
                o[1], o[4] = 0, o[4] // 2 * 2
            o[2] = G.choice(draw, grp) if G.integer(draw, 0, 4) else o[2]
            o[3] = foc[1] if G.integer(draw, 0, 4) else G.choice(draw, grp)
        return {"ops": ops}
    for o in ops:
        if draw(G.st.booleans()):
            o[2:4] = foc
            continue
        if draw(G.st.booleans()):
            o[2] = G.choice(draw, foc)
        if draw(G.st.booleans()):
            o[3] = G.choice(draw, foc)
    return {"ops": ops}


def c_auto(c, ctx):
    calls = []

    @hg.auto_cache
    def fun_a(obj, x=None, y=5):
        calls.append(1)
        return ["a", obj.tag, frozen(x), frozen(y)]

    @hg.auto_cache
    def fun_b(obj, x=None, y=5):
        calls.append(1)
        return ["b", obj.tag, frozen(x), frozen(y)]

    def frozen(x):
        if isinstance(x, np.ndarray):
            return ("arr", x.tolist())
        return repr(x) if not isinstance(x, set) else repr(sorted(x))
    ob = [Plain(), Plain(), Plain()]
    for i, o in enumerate(ob):
        o.tag = i
    serial = 3
    known = set()
    ever = set()        # results that may be in the cache
    last = {}

    def val(i):
        if i < len(POOL):
            return POOL[i]
        if i == len(POOL):
            return arrs[0]
        if i == len(POOL) + 1:
            return arrs[1]
        # temporaries: they die after the call
        return np.array([i, nb[0]])
    arrs = [np.array([1.0, 2.0]), np.array([3.0])]
    nb = [0]
    hg.set_auto_cache_state(True)
    try:
        for op, i, x, y, how in c["ops"]:
            nb[0] += 1
            f = fun_a if how % 2 == 0 else fun_b
            nm = "a" if how % 2 == 0 else "b"
            if op == 0:
                who = ob[i].tag
                if y % 3 == 0:
                    hg.clear_auto_cache(function=f)
                elif y % 3 == 1:
                    hg.clear_auto_cache(function="fun_" + nm)
                else:
                    hg.clear_auto_cache(function=f, reference_object=ob[i])
                known = {k for k in known if k[0] != nm or (y % 3 == 2 and k[1] != who)}
                ever = {k for k in ever if k[0] != nm or (y % 3 == 2 and k[1] != who)}
                continue
            if op == 1:
                if y % 3 == 0:
                    hg.clear_auto_cache()
                    known, ever = set(), set()
                    continue
                hg.clear_auto_cache(reference_object=ob[i])
                known = {k for k in known if k[1] != ob[i].tag}
                ever = {k for k in ever if k[1] != ob[i].tag}
                continue
            if op == 2:
                ob[i] = None
                ob[i] = Plain()
                ob[i].tag = serial
                serial += 1
                continue
            vx, vy = val(x), val(y)
            key = (nm, ob[i].tag, x, y)
            before = len(calls)
            flags = {}
            if op == 3:
                flags["no_cache"] = True
            elif op == 4:
                flags["force_recompute"] = True
            if how >= 2:
                r = f(ob[i], y=vy, x=vx, **flags)
            elif op == 5:
                r = f(obj=ob[i], x=vx, y=vy)
            elif op == 6:
                r = f(ob[i], vx, y=vy)
            else:
                r = f(ob[i], vx, vy, **flags)
            exp = [nm, ob[i].tag, frozen(vx), frozen(vy)]
            req(r == exp, "cached function returned", r, "expected", exp)
            used = len(calls) - before
            kx = (nm, ob[i].tag, repr(exp))
            if kx not in ever:
                req(used == 1, "a result was found in the cache where there can not be any (never computed, or cleared)", exp)
            if op != 3:
                ever.add(kx)
            if flags:
                req(used == 1, "the function was not called in spite of", flags)
                if op == 4:
                    known.add(key)
            elif key in known and x < len(POOL) + 2 and y < len(POOL) + 2 and hashable(vx) and hashable(vy) and (last.get(key[:2]) == key or {x, y} <= SIMPLE):
                # two successive calls with the same arguments, or arguments whose identification can not be mixed up
                req(used == 0, "the result of a previous call with the same arguments was not reused", key)
                ctx.ev("reused")
            else:
                known.add(key)
            if op != 3:
                last[key[:2]] = key
            vx = vy = None
    finally:
        hg.clear_auto_cache()
    return len(c["ops"]) >= 3


def hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return isinstance(x, np.ndarray)


# ------------------------------------------------------------------ metadata attached by constructors
def s_meta(draw):
    h, w = G.integer(draw, 1, G.sz(5, 2)), G.integer(draw, 2, G.sz(5, 2))
    return {"sh": [h, w], "seed": G.seed32(draw), "lev": G.choice(draw, [2, 4, 12]), "dt": G.choice(draw, ["float64", "int32"]), "p": [2, 2, 2]}


def same(a, b, what):
    a, b = canon(a), canon(b)
    req(a == b, what, show(a), "expected", show(b))


def c_meta(c, ctx):
    w = World(c)
    g, sh = w.g, tuple(w.sh)
    ew, vw = w.d["ew"][0], w.d["vw"][0]
    n, m = w.n, w.m
    ends = list(zip(*[x.tolist() for x in g.edge_list()]))
    for gr in (g, hg.get_8_adjacency_graph(sh), hg.get_4_adjacency_implicit_graph(sh), hg.get_8_adjacency_implicit_graph(sh), hg.get_nd_regular_graph(sh, [[0, 1]])):
        req(tuple(hg.CptGridGraph.get_shape(gr)) == sh and hg.CptGridGraph.validate(gr), "shape of the grid", hg.CptGridGraph.get_shape(gr))
    HIER = {
        "bpt_canonical": lambda: hg.bpt_canonical(g, ew), "quasi_flat_zone_hierarchy": lambda: hg.quasi_flat_zone_hierarchy(g, ew),
        "min_tree": lambda: hg.component_tree_min_tree(g, vw), "max_tree": lambda: hg.component_tree_max_tree(g, vw),
        "single": lambda: hg.binary_partition_tree_single_linkage(g, ew), "complete": lambda: hg.binary_partition_tree_complete_linkage(g, ew),
        "average": lambda: hg.binary_partition_tree_average_linkage(g, ew), "ward": lambda: hg.binary_partition_tree_ward_linkage(g, w.d["vv"][0]),
        "MS": lambda: hg.binary_partition_tree_MumfordShah_energy(g, vw), "area": lambda: hg.watershed_hierarchy_by_area(g, ew),
        "dynamics": lambda: hg.watershed_hierarchy_by_dynamics(g, ew), "alpha omega": lambda: hg.constrained_connectivity_hierarchy_alpha_omega(g, vw),
        "strong": lambda: hg.constrained_connectivity_hierarchy_strong_connection(g, ew),
    }
    for name, f in HIER.items():
        r = f()
        t, a = r[0], r[1]
        req(hg.CptHierarchy.validate(t), name, "is not a hierarchy")
        req(hg.CptHierarchy.get_leaf_graph(t) is g, name, "has another leaf graph")
        same(hg.saliency(t, a), hg.saliency(t, a, leaf_graph=g), name + ": saliency")
        same(hg.attribute_area(t), hg.attribute_area(t, vertex_area=np.ones(n), leaf_graph=g).astype(hg.attribute_area(t).dtype), name + ": area")
        if hg.CptBinaryHierarchy.validate(t):
            mm = np.asarray(hg.CptBinaryHierarchy.get_mst_edge_map(t))
            req(mm.shape == (n - 1,), name, "mst edge map", mm.shape)
            mst = hg.CptBinaryHierarchy.get_mst(t)
            req(mst.num_vertices() == n and mst.num_edges() == n - 1, name, "mst", mst.num_edges())
            R = T(t.parents().tolist())
            for i, e in enumerate(mm.tolist()):
                x, y = mst.edge_from_index(i)[:2]
                req({x, y} == set(ends[e]), name, "edge", i, "of the mst is", (x, y), "expected", ends[e])
                req(R.lca(x, y) == n + i, name, "edge", i, "of the mst does not join the children of the node", n + i)
            req(len(components(n, [ends[e] for e in mm])) == n and len(set(components(n, [ends[e] for e in mm]))) == 1, name, "the mst is not spanning")
            ctx.ev("binary hierarchy")
    mst = hg.minimum_spanning_tree(g, ew)
    req(hg.CptMinimumSpanningTree.get_base_graph(mst) is g and hg.CptMinimumSpanningTree.validate(mst), "base graph of the mst")
    mm = np.asarray(hg.CptMinimumSpanningTree.get_edge_map(mst)).tolist()
    for i, e in enumerate(mm):
        req(set(mst.edge_from_index(i)[:2]) == set(ends[e]), "edge map of the mst")
    for rag in (w.rag, hg.make_region_adjacency_graph_from_graph_cut(g, w.d["cut"][0])):
        req(hg.CptRegionAdjacencyGraph.get_pre_graph(rag) is g and hg.CptRegionAdjacencyGraph.validate(rag), "pre graph of the rag")
        vm, em = hg.CptRegionAdjacencyGraph.get_vertex_map(rag), hg.CptRegionAdjacencyGraph.get_edge_map(rag)
        d = hg.CptRegionAdjacencyGraph.construct(rag)
        req(d["pre_graph"] is g and d["rag"] is rag and d["vertex_map"] is vm and d["edge_map"] is em, "construct")
        same(np.asarray(hg.rag_back_project_vertex_weights(rag, np.arange(rag.num_vertices()))).ravel(), np.asarray(np.arange(rag.num_vertices())[np.asarray(vm)]).ravel(), "back projection")
    for im in (vw.reshape(sh), vw.reshape(sh).astype(np.float64)):
        t, a = hg.component_tree_tree_of_shapes_image2d(im)
        lg = hg.CptHierarchy.get_leaf_graph(t)
        req(tuple(hg.CptGridGraph.get_shape(lg)) == sh, "shape of the leaf graph of the tree of shapes")
        req(hg.reconstruct_leaf_data(t, a).shape == sh, "reconstruction of the image")
    # simplified trees keep their leaf graph
    st, nm = hg.simplify_tree(w.t, w.d["nb"][0])
    if hg.CptHierarchy.validate(st):
        req(hg.CptHierarchy.get_leaf_graph(st) is g, "leaf graph of the simplified tree")
    q = hg.quasi_flat_zone_hierarchy(w.rag, w.d["rew"][0])[0] if w.rt is not None else None
    if q is not None:
        req(hg.CptHierarchy.get_leaf_graph(q) is w.rag, "leaf graph of a hierarchy on a rag")
        ctx.ev("rag")
    return n >= 4


SUBTESTS = [
    Sub("history", s_history, c_history, 500, rule="at least 4 calls returned a value, each compared with the same call on fresh objects", shard=60),
    Sub("sweep", s_sweep, c_history, 120, rule="at least 4 calls returned a value, each compared with the same call on fresh objects", shard=8),
    Sub("attributes", s_attr, c_attr, 400, rule="at least 5 operations on attributes and tags"),
    Sub("auto_cache", s_auto, c_auto, 900, rule="at least 3 operations on the cache"),
    Sub("metadata", s_meta, c_meta, 150, rule="at least 4 pixels", shard=40),
]
