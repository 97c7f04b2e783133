"""P26: whatever the arguments, a call returns or raises; runs with the extension instrumented by AddressSanitizer."""
import gc
import numpy as np
import higra as hg
from vlib.core import Sub, req, Skip
from vlib import gen as G
from vlib.ref import T
from vlib.hgc import mk_tree, mk_graph
from props import p25

A = hg.Accumulators


def seq(draw, n, hi):
    return G.seq(draw, n, hi + 1)


DT = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64", "bool", "float16", ">i4", "complex64"]
KINDS = ["short", "long", "double", "empty", "0d", "2d", "3d", "2dflat", "dtype", "neg", "big", "huge", "nan", "inf", "strided", "reverse",
         "fortran", "readonly", "list", "none", "min", "zero"]


def mutate(x, m):
    """x: a valid array argument; m = [kind, position, variant]"""
    kind, pos, var = m
    x = np.array(x)
    n = x.shape[0]
    if kind == "short":
        return x[:max(0, n - 1 - var % 3)]
    if kind == "long":
        return np.concatenate((x, x[:1 + var % 3]))
    if kind == "double":
        return np.concatenate((x, x))
    if kind == "empty":
        return x[:0]
    if kind == "0d":
        return x.ravel()[0:1].reshape(()) if x.size else np.array(0.)
    if kind == "2d":
        return np.repeat(x.reshape(n, -1), 1 + var % 3, axis=1)
    if kind == "2dflat":
        return x.reshape(1, -1)
    if kind == "3d":
        return np.repeat(x.reshape(n, -1, 1), 2, axis=2)
    if kind == "dtype":
        return x.astype(DT[var % len(DT)])
    if kind in ("neg", "big", "huge", "nan", "inf", "min", "zero"):
        if kind in ("nan", "inf"):
            x = x.astype(np.float64)
            v = np.nan if kind == "nan" else (np.inf if var % 2 else -np.inf)
        else:
            if x.dtype.kind in "bu" or x.dtype.itemsize < 4:
                x = x.astype(np.int64)
            v = {"neg": -1 - var % 3, "big": n + var % 3, "huge": 100000, "zero": 0,
                 "min": np.iinfo(x.dtype).min if x.dtype.kind == "i" else -1e300}[kind]
        if x.size:
            f = x.reshape(-1)
            if var % 4 == 3:
                f[:] = v
            else:
                f[pos % f.size] = v
            x = f.reshape(x.shape)
        return x
    if kind == "strided":
        return np.repeat(x, 2, axis=0)[::2]
    if kind == "reverse":
        return x[::-1]
    if kind == "fortran":
        return np.asfortranarray(x.reshape(n, -1))
    if kind == "readonly":
        x.flags.writeable = False
        return x
    if kind == "list":
        return x.tolist()
    if kind == "none":
        return None
    raise ValueError(kind)


class Fuzzed(p25.World):
    """the accessor of array arguments applies the mutations"""

    def __init__(self, c):
        p25.World.__init__(self, c)
        self.mut = {}
        self.used = False

    def a(self, name, k):
        x = self.d[name][k]
        if name in self.mut:
            self.used = True
            return mutate(x, self.mut[name])
        return x.copy()


NAMES = ["ew", "vw", "vv", "lab", "seeds", "va", "el", "cut", "alt", "nw", "nb", "calt", "cnw", "cnb", "rew", "rvw", "ralt", "bnw", "bleaf"]


def s_world(draw):
    h, w = G.integer(draw, 1, 4), G.integer(draw, 2, 4)
    return {"sh": [h, w], "seed": G.seed32(draw), "lev": G.choice(draw, [2, 4, 12]), "dt": G.choice(draw, ["float64", "int32", "int64", "uint8"]),
            "p": G.tree(draw, max_leaves=6, max_inner=4, unary=True, min_leaves=1)}


def s_fuzz(draw):
    c = s_world(draw)
    c["mut"] = [[m, G.integer(draw, 0, 255), G.integer(draw, 0, 255)] for m in
                (G.choice(draw, KINDS) for _ in range(G.integer(draw, 1, 3)))]
    c["calls"] = [[i, k % 2, a, s, o] for i, k, a, s, o in zip(seq(draw, 12, len(p25.TABLE) - 1), seq(draw, 12, 1), seq(draw, 12, 2),
                                                            seq(draw, 12, 11), seq(draw, 12, 30))]
    return c


REMOVED = 99


def swap_objects(w, s):
    """objects that do not fit together"""
    if s == 0:
        w.t = w.bt
    elif s == 1:
        w.g = hg.UndirectedGraph(w.n)
    elif s == 2:
        w.g = hg.UndirectedGraph(0)
    elif s == 3:
        w.t, w.ct = w.ct, w.t
    elif s == 4:
        w.t = hg.Tree([0])
    elif s == 5:
        w.t = hg.Tree([])
    elif s == 6:
        w.g = w.rag
    elif s == 7:
        g = hg.UndirectedGraph(w.n + 1)
        g.add_edges(np.arange(w.n), np.arange(1, w.n + 1))
        w.g = g
    elif s == 8:
        w.bt = hg.Tree([])
        w.ct = hg.Tree([2, 2, 2])
    elif s == 9:
        g = hg.UndirectedGraph(1)
        g.add_edge(0, 0)
        w.g = g
    elif s == 10:
        w.rag = w.g
        w.rt = w.t
    elif s == REMOVED:
        g = hg.UndirectedGraph(w.n)
        g.add_edges(*w.g.edge_list())
        if w.m:
            g.remove_edge(w.m // 2)
        w.g = g


def use(r):
    """touch every value of a result"""
    p25.canon(r)


def c_fuzz(c, ctx):
    hg.set_auto_cache_state(False)
    try:
        n = 0
        fresh = True
        for i, k, ma, mb, o in c["calls"]:
            if fresh:
                w = Fuzzed(c)
                fresh = False
            # every argument in turn gets a mutation
            w.mut = {nm: c["mut"][(j * (1 + ma) + mb) % len(c["mut"])] for j, nm in enumerate(NAMES) if ma == 0 or j % (1 + ma) == mb % (1 + ma)}
            if o < 11:
                swap_objects(w, o)
                fresh = True
                if o % 2:
                    w.mut = {}
            w.used = False
            name, f = p25.TABLE[i]
            try:
                r = f(w, k)
                use(r)
                ctx.ev("returned")
            except MemoryError:
                ctx.ev("memory error")
            except Exception as e:
                ctx.ev("raised")
            if w.used or fresh:
                n += 1
        return n > 0
    finally:
        hg.set_auto_cache_state(True)


# ------------------------------------------------------------------ lengths
# functions for which any length is meaningful (or the length of the second array is the same as the first by construction)
ANY_LENGTH = {("attribute_regular_altitudes depth", "nw"), ("attribute_vertex_perimeter el", "el"), ("saliency", "alt"), ("saliency rag", "ralt"),
              ("saliency rag no", "ralt"), ("reconstruct_leaf_data plain", "nw"), ("assess_partition", "lab"), ("sort", "ew"), ("arg_sort", "vw"),
              ("is_in_bijection", "lab"), ("common type", "lab"), ("common type", "vw"), ("project_fine_to_coarse", "lab")}


class Recorder(Fuzzed):
    def a(self, name, k):
        self.__dict__.setdefault("names", []).append(name)
        return Fuzzed.a(self, name, k)


def s_length(draw):
    c = s_world(draw)
    c["calls"] = [[i, k, j, m, v] for i, k, j, m, v in zip(seq(draw, 10, len(p25.TABLE) - 1), seq(draw, 10, 1), seq(draw, 10, 5), seq(draw, 10, 3), seq(draw, 10, 7))]
    return c


def c_length(c, ctx):
    hg.set_auto_cache_state(False)
    n = 0
    try:
        for i, k, j, m, v in c["calls"]:
            name, f = p25.TABLE[i]
            w = Recorder(c)
            try:
                f(w, k)
            except Exception:
                continue
            names = sorted(set(w.__dict__.get("names", [])))
            if not names:
                continue
            nm = names[j % len(names)]
            if (name, nm) in ANY_LENGTH:
                continue
            w = Recorder(c)
            mut = [["short", "long", "double", "empty"][m], 0, v]
            x = mutate(w.d[nm][k], mut)
            if len(x) == len(w.d[nm][k]) or len(x) == 1 or x.shape[:2] == w.sh or (nm == "rew" and len(x) == w.m):
                continue
            w.mut = {nm: mut}
            try:
                use(f(w, k))
            except Exception:
                n += 1
                ctx.ev(mut[0])
                continue
            req(False, name, "accepts", nm, "of length", len(x), "instead of", len(w.d[nm][k]))
        return n > 0
    finally:
        hg.set_auto_cache_state(True)


# ------------------------------------------------------------------ methods with any index

IDX = [0, 1, -1, -2, "n", "n+1", "n-1", "m", "m-1", "m+1", "big", "huge", "min"]


def index(v, n, m):
    return {"n": n, "n+1": n + 1, "n-1": n - 1, "m": m, "m-1": m - 1, "m+1": m + 1, "big": 10 ** 6, "huge": 2 ** 62, "min": -2 ** 63}.get(v, v)


def s_index(draw):
    g = G.graph(draw, 6, min_v=0, extra=5, connected=False, multi=True, loops=True)
    return {"g": g, "p": G.tree(draw, 5, 4, unary=True, single=True),
            "ops": [[o, IDX[a % len(IDX)], IDX[b % len(IDX)], s, l] for o, a, b, s, l in
                    zip(seq(draw, 25, 62), seq(draw, 25, 200), seq(draw, 25, 200), seq(draw, 25, 5), seq(draw, 25, 4))]}


def c_index(c, ctx):
    g = mk_graph(c["g"])
    t = hg.Tree(c["p"])
    bad = 0
    for op, a0, b0, form, ln in c["ops"]:
        n, m = (g.num_vertices(), g.num_edges()) if op % len(OPS) < 22 else (t.num_vertices(), t.num_edges())
        a, b = index(a0, n, m), index(b0, n, m)
        if form == 0:
            A_, B_ = a, b
        else:
            dt = ["int64", "int32", "uint64", "int8", "float64"][form - 1]
            with np.errstate(all="ignore"):
                A_ = np.array([0] * ln + [a], dtype=np.int64).astype(dt)
                B_ = np.array([b] + [0] * (ln if form != 4 else ln + 1), dtype=np.int64).astype(dt)
        try:
            r = OPS[op % len(OPS)](g, t, A_, B_)
            use(r)
            ctx.ev("returned")
        except MemoryError:
            ctx.ev("memory error")
        except Exception as e:
            ctx.ev("raised")
            bad += 1
    # the objects are still sound
    s, tt = g.edge_list()
    req(len(s) == len(tt) == g.num_edges(), "edge list")
    for i in range(g.num_edges()):
        e = g.edge_from_index(i)
        req(e[0] == s[i] and e[1] == tt[i], "edge", i)
        req(-1 <= s[i] < g.num_vertices() and -1 <= tt[i] < g.num_vertices(), "end of an edge out of range", i, s[i], tt[i])
    nv = g.num_vertices()
    req(sum(1 for v in range(nv) for e in g.out_edges(v)) == sum(1 if x == y else 2 for x, y in zip(s, tt) if x >= 0), "out edges")
    req(np.array_equal(t.parents(), c["p"]), "parents of the tree")
    return bad > 0


def small(x):
    """adding vertices: keep the size bounded"""
    return int(np.ravel(x)[0]) if abs(int(np.ravel(x)[0])) < 100 else 3


OPS = [
    lambda g, t, a, b: g.add_edge(a, b) if np.ndim(a) == 0 else g.add_edges(a, b),
    lambda g, t, a, b: g.add_edges(a, b),
    lambda g, t, a, b: g.set_edge(a if np.ndim(a) == 0 else int(a[0]), b if np.ndim(b) == 0 else int(b[0]), 0),
    lambda g, t, a, b: g.set_edge(0, a, b),
    lambda g, t, a, b: g.remove_edge(a),
    lambda g, t, a, b: g.degree(a),
    lambda g, t, a, b: g.in_degree(a),
    lambda g, t, a, b: g.out_degree(a),
    lambda g, t, a, b: list(g.out_edges(a)),
    lambda g, t, a, b: list(g.in_edges(a)),
    lambda g, t, a, b: list(g.adjacent_vertices(a)),
    lambda g, t, a, b: g.edge_from_index(a),
    lambda g, t, a, b: g.add_vertices(small(a)),
    lambda g, t, a, b: g.add_vertex(),
    lambda g, t, a, b: hg.subgraph(g, a),
    lambda g, t, a, b: hg.subgraph(g, a, True),
    lambda g, t, a, b: hg.vertex_induced_subgraph(g, a),
    lambda g, t, a, b: g.source((a, b, 0)),
    lambda g, t, a, b: g.index(g.edge_from_index(a)),
    lambda g, t, a, b: g.find_edge(a, b) if hasattr(g, "find_edge") else None,
    lambda g, t, a, b: hg.labelisation_seeded_watershed(g, np.zeros(g.num_edges()), a),
    lambda g, t, a, b: hg.bpt_canonical(g, sorted_edge_indices=a),
    lambda g, t, a, b: t.parent(a),
    lambda g, t, a, b: t.children(a),
    lambda g, t, a, b: t.num_children(a),
    lambda g, t, a, b: t.child(a, b),
    lambda g, t, a, b: t.child(0, a),
    lambda g, t, a, b: t.is_leaf(a),
    lambda g, t, a, b: t.ancestors(a),
    lambda g, t, a, b: t.degree(a),
    lambda g, t, a, b: t.in_degree(a),
    lambda g, t, a, b: t.out_degree(a),
    lambda g, t, a, b: list(t.out_edges(a)),
    lambda g, t, a, b: list(t.in_edges(a)),
    lambda g, t, a, b: list(t.adjacent_vertices(a)),
    lambda g, t, a, b: t.edge_from_index(a),
    lambda g, t, a, b: t.lowest_common_ancestor(a, b),
    lambda g, t, a, b: t.find_region(a, b, np.arange(t.num_vertices())),
    lambda g, t, a, b: t.find_region(0, a, b),
    lambda g, t, a, b: t.sub_tree(a),
    lambda g, t, a, b: hg.attribute_sibling(t, small(a)),
    lambda g, t, a, b: t.is_leaf(b),
    lambda g, t, a, b: hg.accumulate_at(a, b, A.sum) if np.all(np.abs(np.asarray(a, dtype=float)) < 1e5) else None,
    lambda g, t, a, b: t.leaves_to_root_iterator(bool(np.ravel(a)[0]), bool(np.ravel(b)[0])) and list(t.leaves_to_root_iterator(bool(np.ravel(a)[0]), bool(np.ravel(b)[0]))),
    lambda g, t, a, b: list(t.root_to_leaves_iterator(bool(np.ravel(a)[0]), bool(np.ravel(b)[0]))),
    lambda g, t, a, b: hg.LCAFast(t).lca(a, b),
    lambda g, t, a, b: hg.LCA_rmq_sparse_table(t).lca(a, b),
    lambda g, t, a, b: hg.LCA_rmq_sparse_table_block(t, 1 + abs(small(a)) % 9).lca(b, b),
    lambda g, t, a, b: t.lowest_common_ancestor(a, b),
    lambda g, t, a, b: hg.is_bipartite_graph((a, b, t.num_vertices())),
    lambda g, t, a, b: hg.is_bipartite_graph((a, b, small(a))),
    lambda g, t, a, b: hg.bipartite_graph_matching((a, b, 8), np.arange(np.size(a))),
    lambda g, t, a, b: hg.bpt_canonical((a, b, t.num_vertices()), np.arange(np.size(a), dtype=np.float64)),
    lambda g, t, a, b: hg.bpt_canonical((a, b, small(b)), None, np.arange(np.size(a))),
    lambda g, t, a, b: hg.bpt_canonical((np.arange(np.size(a)), np.arange(np.size(a)) + 1, np.size(a) + 1), None, a),
    lambda g, t, a, b: hg.bpt_canonical((np.zeros(3, dtype=np.int64), np.arange(3), 3), b, a),
    lambda g, t, a, b: hg.find_region(t, a, b, np.arange(t.num_vertices())) if hasattr(hg, "find_region") else None,
    lambda g, t, a, b: hg.rag_accumulate(a, b, A.mean) if False else hg.accumulate_at(b, a, A.max),
    lambda g, t, a, b: hg.is_in_bijection(a, b),
    lambda g, t, a, b: hg.labelisation_2_graph_cut(g, a),
    lambda g, t, a, b: hg.graph_cut_2_labelisation(g, b),
    lambda g, t, a, b: hg.simplify_tree(t, a),
    lambda g, t, a, b: hg.attribute_extrema(t, b),
    lambda g, t, a, b: hg.weight_graph(g, a, hg.WeightFunction.L1),
]


# ------------------------------------------------------------------ construction from anything

def s_build(draw):
    return {"k": draw(G.st.integers(0, 11)), "a": [x - 2 for x in seq(draw, G.integer(draw, 0, 9), 9)], "b": [x - 2 for x in seq(draw, G.integer(draw, 0, 9), 9)],
            "x": G.integer(draw, -2, 5), "y": G.integer(draw, -2, 5), "m": [G.choice(draw, KINDS), G.integer(draw, 0, 255), G.integer(draw, 0, 255)],
            "dt": G.choice(draw, DT)}


def c_build(c, ctx):
    a = np.array(c["a"], dtype=np.int64)
    if a.size:
        a = mutate(a, c["m"])
    b = np.array(c["b"], dtype=np.int64)
    with np.errstate(all="ignore"):
        try:
            b = b.astype(c["dt"])
        except Exception:
            pass
    x, y, k = c["x"], c["y"], c["k"]
    ok = False
    try:
        if k == 0:
            t = hg.Tree(a)
            n = t.num_vertices()
            for i in range(n):
                use((t.parent(i), t.children(i), t.ancestors(i), t.num_children(i), t.is_leaf(i)))
            use(t.lowest_common_ancestor(np.arange(n), np.arange(n)[::-1].copy()))
            p = t.parents()
            req(all(int(p[i]) > i for i in range(n - 1)) and (n == 0 or p[n - 1] == n - 1), "an invalid parent relation was accepted", a)
            use((hg.attribute_area(t, vertex_area=np.ones(t.num_leaves()), no_cache=True), hg.attribute_depth(t, no_cache=True),
                 hg.attribute_vertex_list(t, no_cache=True)))
            ok = True
        elif k == 1:
            g = hg.UndirectedGraph(abs(x))
            g.add_edges(a, b)
            use(g)
        elif k == 2:
            g = hg.UndirectedGraph(x)
            use(g)
        elif k == 3:
            g = hg.get_4_adjacency_graph((x, y)) if c["m"][1] % 2 else hg.get_8_adjacency_graph((x, y))
            use(g)
        elif k == 4:
            g = hg.get_4_adjacency_implicit_graph((x, y)) if c["m"][1] % 2 else hg.get_8_adjacency_implicit_graph((x, y))
            for v in (-1, 0, 1, g.num_vertices() - 1, g.num_vertices(), 10 ** 6):
                try:
                    use((list(g.out_edges(v)), g.degree(v) if hasattr(g, "degree") else 0, list(g.adjacent_vertices(v)) if hasattr(g, "adjacent_vertices") else 0))
                except Exception:
                    pass
        elif k == 5:
            g = hg.get_nd_regular_graph((abs(x) + 1, abs(y) + 1), np.atleast_2d(a).astype(np.int64) if np.size(a) else a)
            use(g)
        elif k == 6:
            use(hg.mask_2_neighbours(np.atleast_2d(a), b))
        elif k == 7:
            use(hg.get_nd_regular_implicit_graph(c["a"][:5], np.atleast_2d(b)))
        elif k == 8:
            e = hg.EmbeddingGrid2d((x, y))
            use((e.lin2grid(a), e.grid2lin(a), e.contains(a)))
        elif k == 9:
            use(hg.is_in_bijection(a, b))
            use(hg.project_fine_to_coarse_labelisation(a, b))
        elif k == 10:
            use(hg.assess_partition(a, b, hg.PartitionMeasure.BCE))
        else:
            g = hg.get_4_adjacency_graph((2, max(1, abs(x))))
            use(p25.ragdata(hg.make_region_adjacency_graph_from_labelisation(g, np.resize(np.asarray(a), g.num_vertices()) if np.size(a) else a)))
        ctx.ev("returned")
    except MemoryError:
        ctx.ev("memory error")
    except (AssertionError, Skip):
        raise
    except Exception:
        ctx.ev("raised")
    return ok or k != 0


# ------------------------------------------------------------------ lifetimes

def produce():
    L = []

    def add(name, f):
        L.append((name, f))

    add("vertices", lambda w: (w.g.vertices(), list))
    add("edges", lambda w: (w.g.edges(), lambda x: [tuple(e) for e in x]))
    add("out_edges", lambda w: (w.g.out_edges(w.n - 1), lambda x: [tuple(e) for e in x]))
    add("in_edges", lambda w: (w.g.in_edges(0), lambda x: [tuple(e) for e in x]))
    add("adjacent", lambda w: (w.g.adjacent_vertices(0), list))
    add("edge_list", lambda w: (w.g.edge_list(), lambda x: p25.canon(x)))
    add("tree vertices", lambda w: (w.t.vertices(), list))
    add("tree leaves", lambda w: (w.t.leaves(), list))
    add("tree edges", lambda w: (w.t.edges(), lambda x: [tuple(e) for e in x]))
    add("tree out_edges", lambda w: (w.t.out_edges(w.t.root()), lambda x: [tuple(e) for e in x]))
    add("tree adjacent", lambda w: (w.t.adjacent_vertices(w.t.root()), list))
    add("children", lambda w: (w.t.children(w.t.root()), list))
    add("ancestors", lambda w: (w.t.ancestors(0), list))
    add("parents", lambda w: (w.t.parents(), p25.canon))
    add("leaves_to_root", lambda w: (w.t.leaves_to_root_iterator(), list))
    add("root_to_leaves", lambda w: (w.t.root_to_leaves_iterator(True, True), list))
    for cl in ("LCAFast", "LCA_rmq_sparse_table", "LCA_rmq_sparse_table_block"):
        add(cl, lambda w, cl=cl: (getattr(hg, cl)(w.t), lambda x: p25.canon(x.lca(np.arange(3) % w_n(x), np.zeros(3, dtype=np.int64)))))
    add("tree lca", lambda w: (w.t.lowest_common_ancestor, lambda x: int(x(0, 0))))
    add("half iterated", lambda w: (half(w.g.edges()), lambda x: [tuple(e) for e in copy_iter(x)]))
    add("method", lambda w: (w.g.out_edges, lambda x: [tuple(e) for e in x(0)]))
    add("leaf graph", lambda w: (hg.CptHierarchy.get_leaf_graph(w.t), p25.canon))
    add("altitudes", lambda w: (w.alt, p25.canon))
    add("linear weights", lambda w: (hg.saliency(w.t, w.alt), p25.canon))
    add("sub tree", lambda w: (w.t.sub_tree(w.t.root()), p25.canon))
    add("simplified", lambda w: (hg.simplify_tree(w.t, w.d["nb"][0]), p25.canon))
    add("explorer", lambda w: (hg.HorizontalCutExplorer(w.t, w.d["alt"][1]), explorer))
    add("explorer cut", lambda w: (hg.HorizontalCutExplorer(w.t, w.d["alt"][1]).horizontal_cut_from_index(0), lambda x: (sorted(np.asarray(x.nodes()).tolist()), x.altitude())))
    add("explorer cuts", lambda w: ((lambda e: [e.horizontal_cut_from_index(i) for i in range(e.num_cuts())])(hg.HorizontalCutExplorer(w.t, w.d["alt"][1])), lambda x: [(sorted(np.asarray(y.nodes()).tolist()), float(y.altitude())) for y in x]))
    add("explorer arrays", lambda w: ((lambda e: (e.num_regions_cuts(), e.altitude_cuts()))(hg.HorizontalCutExplorer(w.t, w.d["alt"][1])), p25.canon))
    add("explorer rag", lambda w: (hg.HorizontalCutExplorer(w.rt, w.d["ralt"][1]), explorer) if w.rt is not None else (0, p25.canon))
    add("rag maps", lambda w: (p25.ragdata(w.rag), p25.canon))
    add("rag", lambda w: (w.rag, lambda r: p25.canon(hg.rag_back_project_vertex_weights(r, np.arange(r.num_vertices())))))
    add("mst", lambda w: ((lambda r: (r, hg.CptMinimumSpanningTree.get_edge_map(r)))(hg.minimum_spanning_tree(w.g, w.d["ew"][0])), p25.canon))
    add("contour", lambda w: (hg.fit_contour_2d(w.g, w.sh, w.d["cut"][1]), contour))
    add("contour piece", lambda w: ([p for p in hg.fit_contour_2d(w.g, w.sh, w.d["cut"][1])], lambda x: sorted(sorted(tuple(map(int, e[:1])) for s in p for e in s) for p in x)))
    add("contour elements", lambda w: ([s for p in hg.fit_contour_2d(w.g, w.sh, w.d["cut"][1]) for s in p], lambda x: sorted(sorted(int(e[0]) for e in s) for s in x)))
    add("fragmentation", lambda w: (hg.assess_fragmentation_optimal_cut(w.t, p25.canonlab(w.d["lab"][0]), hg.OptimalCutMeasure.BCE), lambda x: p25.canon(p25.frag(x))))
    add("fragmentation arrays", lambda w: ((lambda f: (f.num_regions(), f.scores()))(hg.assess_fragmentation_optimal_cut(w.t, p25.canonlab(w.d["lab"][0]), hg.OptimalCutMeasure.BCE)), p25.canon))
    add("assesser", lambda w: (hg.AssesserFragmentationOptimalCut(w.t, p25.canonlab(w.d["lab"][0]), hg.OptimalCutMeasure.BCE), lambda x: p25.canon((p25.frag(x.fragmentation_curve()), x.optimal_partition(1), x.optimal_score()))))
    add("aligner", lambda w: (hg.HierarchyAligner.from_labelisation(w.g, np.arange(w.n) // 2), lambda x: p25.canon(x)))
    add("regular graph", lambda w: (hg.get_4_adjacency_implicit_graph(w.sh), lambda x: [list(map(tuple, x.out_edges(0))), list(x.adjacent_vertices(0)) if hasattr(x, "adjacent_vertices") else 0]))
    add("regular iterators", lambda w: ((lambda x: x.out_edges(0))(hg.get_4_adjacency_implicit_graph(w.sh)), lambda x: [tuple(e) for e in x]))
    add("regular neighbours", lambda w: ((lambda x: x.neighbour_list())(hg.get_4_adjacency_implicit_graph(w.sh)), p25.canon))
    add("regular vertices", lambda w: ((lambda x: x.vertices() if hasattr(x, "vertices") else [])(hg.get_4_adjacency_implicit_graph(w.sh)), list))
    add("fused", lambda w: (hg.component_tree_multivariate_tree_of_shapes_image2d(w.d["vv"][0].reshape(w.sh + (2,))), p25.canon))
    add("optdelete", lambda w: (w.g.edge_from_index(0) if w.m else 0, lambda x: tuple(x) if x != 0 else 0))
    add("virtual attribute", lambda w: (hg.attribute_area(w.t), p25.canon))
    return L


def w_n(x):
    return 1


class Half:
    def __init__(self, r):
        self.r = iter(r)
        self.head = [tuple(x) for x in [next(self.r, None)] if x is not None]
        self.out = None


def half(r):
    return Half(r)


def copy_iter(h):
    if h.out is None:
        h.out = h.head + [tuple(e) for e in h.r]
    return h.out


def explorer(x):
    return (x.num_cuts(), p25.canon(x.num_regions_cuts()), p25.canon(x.altitude_cuts()),
            [sorted(np.asarray(x.horizontal_cut_from_index(i).nodes()).tolist()) for i in range(x.num_cuts())])


def contour(x):
    return sorted(sorted(int(e[0]) for s in p for e in s) for p in x)


PROD = produce()


def s_life(draw):
    c = s_world(draw)
    c["ops"] = [[i, j] for i, j in zip(seq(draw, 6, len(PROD) - 1), seq(draw, 6, 2))]
    c["keep"] = G.integer(draw, 0, 2)
    return c


def c_life(c, ctx):
    hg.set_auto_cache_state(True)
    w = p25.World(c)
    held = []
    for i, j in c["ops"]:
        name, f = PROD[i]
        try:
            o, cons = f(w)
        except (AttributeError, NameError, TypeError) as e:
            raise AssertionError("harness: %s %r" % (name, e))
        except Exception as e:
            ctx.ev("raised")
            continue
        # the expected value comes from an identical object, the owner being alive
        try:
            exp = cons(f(w)[0])
        except Exception as e:
            ctx.ev("unusable")
            continue
        held.append((name, o, cons, exp))
        o = None
    f = None
    del w
    if c["keep"] != 1:
        hg.clear_auto_cache()
    gc.collect(1)
    junk = [np.full(k, 77, dtype=np.int64) for k in (4, 8, 16, 32, 64, 128)] + [hg.Tree([2, 2, 2]), hg.UndirectedGraph(5)]
    for name, o, cons, exp in held:
        got = cons(o)
        req(got == exp, name, "changed once its owner is gone:", str(got)[:300], str(exp)[:300])
        ctx.ev(name)
    del junk
    return len(held) > 0


# ------------------------------------------------------------------ memory layout of the arguments

LAYS = ["strided", "reverse2", "fortran", "readonly", "list", "offset", "byteorder", "unaligned"]


def relay(x, kind):
    x = np.array(x)
    if kind == "strided":
        return np.repeat(x, 3, axis=0)[1::3]
    if kind == "reverse2":
        return x[::-1].copy()[::-1]
    if kind == "fortran":
        return np.asfortranarray(x)
    if kind == "readonly":
        x.flags.writeable = False
        return x
    if kind == "list":
        return x.tolist()
    if kind == "offset":
        y = np.zeros((x.shape[0] + 2,) + x.shape[1:], dtype=x.dtype)
        y[1:-1] = x
        return y[1:-1]
    if kind == "byteorder":
        return x.astype(x.dtype.newbyteorder())
    if kind == "unaligned":
        buf = np.zeros(x.nbytes + 1, dtype=np.uint8)
        y = buf[1:].view(x.dtype).reshape(x.shape) if x.size else x
        y[...] = x
        return y
    raise ValueError(kind)


class Laid(p25.World):
    kind = None

    def a(self, name, k):
        x = self.d[name][k]
        return x.copy() if self.kind is None else relay(x, self.kind)


# in place, or the argument is not an array argument of the library
# exponential linkage: near ties are decided by the rounding of exp, which differs between vectorized and plain loops
NOLAYOUT = {"bpt exponential", "sort", "linearize", "delinearize", "tree_of_shapes", "multivariate_tree_of_shapes", "khalimsky", "khalimsky back", "common type"}


def s_layout(draw):
    c = s_world(draw)
    c["calls"] = [[i, k, G.choice(draw, LAYS)] for i, k in zip(seq(draw, 10, len(p25.TABLE) - 1), seq(draw, 10, 1))]
    return c


def c_layout(c, ctx):
    hg.set_auto_cache_state(False)
    try:
        w = Laid(c)
        n = 0
        for i, k, lay in c["calls"]:
            name, f = p25.TABLE[i]
            if name in NOLAYOUT:
                continue
            w.kind = None
            e = p25.run(f, w, k)
            if e[0] != "ok":
                continue
            w.kind = lay
            r = p25.run(f, w, k)
            if r[0] == "exc":
                ctx.ev("rejected: " + lay)
                continue
            # the value type of the result may differ when values are converted
            req(near(r, e, lay in ("list", "byteorder")), name, "depends on the layout of its arguments:", lay, p25.show(r), p25.show(e))
            n += 1
        return n > 0
    finally:
        hg.set_auto_cache_state(True)


# ------------------------------------------------------------------ value types without a dedicated overload

class Typed(p25.World):
    cast = None

    def a(self, name, k):
        x = np.asarray(self.d[name][k])
        if self.cast is None or x.dtype.kind == "b" or name in ("lab", "seeds", "cut"):
            return x.copy()
        y = x.astype(self.cast)
        return x.astype(np.float64) if (y.astype(np.float64) != x).any() else y


def s_types(draw):
    c = s_world(draw)
    c["lev"] = G.choice(draw, [2, 12, 400, 2000])
    c["dt"] = G.choice(draw, ["float64", "int32", "int64"])
    c["calls"] = [[i, k, G.choice(draw, ["longdouble", "longdouble", "object"])]
                  for i, k in zip(seq(draw, 10, len(p25.TABLE) - 1), seq(draw, 10, 1))]
    return c


def number(x):
    """numpy scalars as numbers without type"""
    if isinstance(x, tuple) and len(x) == 3 and x[0] == "np":
        x = x[2]
    if isinstance(x, tuple) and len(x) == 3 and x[0] == "ao":
        try:
            v = np.array([float(y) for y in x[2]], dtype=np.float64)
            return ("a", "float64", x[1], v.tobytes())
        except ValueError:
            return x
    if isinstance(x, tuple) and len(x) == 4 and x[0] == "a" and isinstance(x[3], bytes):
        return ("a", "float64", x[2], np.frombuffer(x[3], dtype=x[1]).astype(np.float64).tobytes())
    if isinstance(x, str) and x.startswith("np."):
        return x.split("(", 1)[1].rstrip(")").strip("'")
    if isinstance(x, (tuple, list)):
        return tuple(number(y) for y in x)
    return x


def c_types(c, ctx):
    hg.set_auto_cache_state(False)
    try:
        w = Typed(c)
        n = 0
        for i, k, ty in c["calls"]:
            name, f = p25.TABLE[i]
            if name in NOLAYOUT:
                continue
            w.cast = "float64"
            e = p25.run(f, w, k)
            if e[0] != "ok":
                continue
            w.cast = ty
            r = p25.run(f, w, k)
            if r[0] == "exc":
                ctx.ev("rejected: " + ty)
                continue
            req(near(number(r), number(e), True), name, "differs for values of type", ty, p25.show(r), "and for the same values of type float64", p25.show(e))
            n += 1
        return n > 0
    finally:
        hg.set_auto_cache_state(True)


def near(x, y, untyped):
    """equality of canonical results, with floating point values up to rounding (vectorized loops may round differently)"""
    if isinstance(x, tuple) and isinstance(y, tuple) and x and y and x[0] == y[0]:
        if x[0] == "a" and len(x) == len(y) == 4:
            if x[2] != y[2] or (x[1] != y[1] and not untyped):
                return False
            u, v = np.frombuffer(x[3], dtype=x[1]), np.frombuffer(y[3], dtype=y[1])
            if u.dtype.kind in "fc" or v.dtype.kind in "fc":
                tol = 1e-4 if "float32" in (x[1], y[1]) else 1e-9
                return bool(np.allclose(u, v, rtol=tol, atol=tol, equal_nan=True))
            return u.tolist() == v.tolist()
        if x[0] == "np" and len(x) == len(y) == 3:
            if x[1] != y[1] and not untyped:
                return False
            return near(x[2], y[2], untyped)
    if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
        return len(x) == len(y) and all(near(u, v, untyped) for u, v in zip(x, y))
    if x == y:
        return True
    if isinstance(x, str) and isinstance(y, str):
        try:
            return bool(np.isclose(float(x), float(y), rtol=1e-9, atol=1e-9, equal_nan=True))
        except ValueError:
            return False
    return False


# ------------------------------------------------------------------ removed edges

class GW:
    """the same weighted graph with (g with holes) or without removed edges; E and I bring edge values and edge indices to a common numbering"""

    def __init__(self, c, holes):
        n = len(c["vw"])
        edges, w, keep = [], [], []
        junk = c["junk"]
        at = {}
        for pos, s, t, x in junk:
            at.setdefault(pos % (len(c["e"]) + 1), []).append((s, t, x))
        removed = []
        for i in range(len(c["e"]) + 1):
            for s, t, x in at.get(i, []) if holes else []:
                removed.append(len(edges))
                edges.append((s, t))
                w.append(x)
            if i < len(c["e"]):
                keep.append(len(edges))
                edges.append(c["e"][i])
                w.append(c["w"][i])
        self.n = n
        self.g = mk_graph({"n": n, "s": [x[0] for x in edges], "t": [x[1] for x in edges]})
        for i in removed:
            self.g.remove_edge(i)
        self.keep = np.array(keep, dtype=np.int64)
        self.inv = np.full(len(edges), -7, dtype=np.int64)
        self.inv[self.keep] = np.arange(len(keep))
        self.m = len(edges)
        dt = c["dt"]
        self.ew = np.array(w, dtype=dt)
        self.vw = np.array(c["vw"], dtype=dt)
        self.lab = np.array(c["lab"], dtype=np.int64)
        self.cut = np.array([x % 2 for x in w], dtype=dt)
        self.el = np.array([1 + x % 3 for x in w], dtype=np.float64)

    def E(self, x):
        x = np.asarray(x)
        req(x.shape[0] == self.m, "an edge weighting has the wrong size", x.shape, self.m)
        return x[self.keep]

    def I(self, x):
        return self.inv[np.asarray(x)]


def table_removed():
    T_ = []

    def add(name, f):
        T_.append((name, f))

    def gr(g):
        return g.num_vertices(), sorted(zip(*[x.tolist() for x in g.edge_list()]))

    def rag(w, r, ok=True):
        vm, em = hg.CptRegionAdjacencyGraph.get_vertex_map(r), hg.CptRegionAdjacencyGraph.get_edge_map(r)
        return r, vm, w.E(em)

    for f in (hg.WeightFunction.mean, hg.WeightFunction.min, hg.WeightFunction.max, hg.WeightFunction.L0, hg.WeightFunction.L1, hg.WeightFunction.L2,
              hg.WeightFunction.L_infinity, hg.WeightFunction.L2_squared, hg.WeightFunction.source, hg.WeightFunction.target):
        add("weight_graph " + str(f).split(".")[-1], lambda w, f=f: w.E(hg.weight_graph(w.g, w.vw, f)))
    add("bpt_canonical", lambda w: (lambda t, a: (t, a, w.I(t.mst_edge_map), t.mst.edge_list()))(*hg.bpt_canonical(w.g, w.ew)))
    add("quasi_flat_zone_hierarchy", lambda w: hg.quasi_flat_zone_hierarchy(w.g, w.ew))
    add("saliency", lambda w: w.E(hg.saliency(*hg.quasi_flat_zone_hierarchy(w.g, w.ew))))
    add("ultrametric_open", lambda w: w.E(hg.ultrametric_open(w.g, w.ew)))
    add("bpt complete", lambda w: hg.binary_partition_tree_complete_linkage(w.g, w.ew))
    add("bpt average", lambda w: hg.binary_partition_tree_average_linkage(w.g, w.ew, w.el))
    add("bpt exponential", lambda w: hg.binary_partition_tree_exponential_linkage(w.g, w.ew, 0.3, w.el))
    add("bpt ward", lambda w: hg.binary_partition_tree_ward_linkage(w.g, w.vw.reshape(-1, 1)))
    def minl(w):
        ws = w.ew.astype(np.float64)

        def f(g, fei, nr, r1, r2, nn):
            for x in nn:
                d = ws[x.first_edge_index()]
                if x.num_edges() > 1:
                    d = min(d, ws[x.second_edge_index()])
                ws[x.new_edge_index()] = d
                x.set_new_edge_weight(d)
        return hg.binary_partition_tree(w.g, f, w.ew.astype(np.float64))

    add("bpt min", minl)
    add("MumfordShah", lambda w: hg.binary_partition_tree_MumfordShah_energy(w.g, w.vw, vertex_area=np.ones(w.n), edge_length=w.el, vertex_perimeter=np.full(w.n, 9.), squared_vertex_values=w.vw * w.vw))
    add("watershed", lambda w: hg.labelisation_watershed(w.g, w.ew))
    add("seeded watershed", lambda w: hg.labelisation_seeded_watershed(w.g, w.ew, w.lab))
    add("watershed area", lambda w: hg.watershed_hierarchy_by_area(w.g, w.ew))
    add("watershed dynamics", lambda w: hg.watershed_hierarchy_by_dynamics(w.g, w.ew))
    add("watershed volume", lambda w: hg.watershed_hierarchy_by_volume(w.g, w.ew))
    add("watershed parents", lambda w: hg.watershed_hierarchy_by_number_of_parents(w.g, w.ew))
    add("alpha omega", lambda w: hg.constrained_connectivity_hierarchy_alpha_omega(w.g, w.vw))
    add("strong connection", lambda w: hg.constrained_connectivity_hierarchy_strong_connection(w.g, w.ew))
    add("minimum_spanning_tree", lambda w: (lambda t: (t.edge_list(), w.I(hg.CptMinimumSpanningTree.construct(t)["mst_edge_map"])))(hg.minimum_spanning_tree(w.g, w.ew)))
    add("max_tree", lambda w: hg.component_tree_max_tree(w.g, w.vw))
    add("min_tree", lambda w: hg.component_tree_min_tree(w.g, w.vw))
    add("labelisation_2_graph_cut", lambda w: w.E(hg.labelisation_2_graph_cut(w.g, w.lab)))
    add("graph_cut_2_labelisation", lambda w: hg.graph_cut_2_labelisation(w.g, w.cut))
    add("rag labels", lambda w: rag(w, hg.make_region_adjacency_graph_from_labelisation(w.g, w.lab)))
    add("rag cut", lambda w: rag(w, hg.make_region_adjacency_graph_from_graph_cut(w.g, w.cut)))
    add("rag edge accumulate", lambda w: hg.rag_accumulate_on_edges(hg.make_region_adjacency_graph_from_labelisation(w.g, w.lab), A.sum, w.ew))
    add("rag edge back", lambda w: (lambda r: w.E(hg.rag_back_project_edge_weights(r, np.arange(1, r.num_edges() + 1))))(hg.make_region_adjacency_graph_from_labelisation(w.g, w.lab)))
    add("accumulate edges", lambda w: hg.accumulate_graph_edges(w.g, w.ew, A.sum))
    add("accumulate edges first", lambda w: hg.accumulate_graph_edges(w.g, w.ew, A.max))
    add("accumulate vertices", lambda w: hg.accumulate_graph_vertices(w.g, w.vw, A.sum))
    add("accumulate contours", lambda w: w.E(hg.accumulate_on_contours(hg.bpt_canonical(w.g, w.ew)[0], np.arange(2. * w.n - 1), A.sum)))
    add("adjacency", lambda w: hg.undirected_graph_2_adjacency_matrix(w.g, w.ew, sparse=False))
    add("adjacency sparse", lambda w: hg.undirected_graph_2_adjacency_matrix(w.g, w.ew).toarray())
    add("adjacency ones", lambda w: hg.undirected_graph_2_adjacency_matrix(w.g, sparse=False))
    add("subgraph", lambda w: (lambda g, v: (gr(g), np.asarray(v)))(*hg.subgraph(w.g, w.keep, spanning=False, return_vertex_map=True)))
    add("subgraph spanning", lambda w: gr(hg.subgraph(w.g, w.keep, spanning=True)))
    add("vertex_induced_subgraph", lambda w: (lambda g, e: (gr(g), w.I(e)))(*hg.vertex_induced_subgraph(w.g, np.arange(0, w.n, 2), return_edge_map=True)))
    add("line_graph", lambda w: sorted(tuple(sorted((int(w.I(a)), int(w.I(b))))) for a, b in zip(*hg.line_graph(w.g).edge_list())))
    add("is_bipartite", lambda w: hg.is_bipartite_graph(w.g))
    add("edge length", lambda w: w.E(hg.attribute_edge_length(w.g)))
    add("vertex perimeter", lambda w: hg.attribute_vertex_perimeter(w.g, w.el))
    for nm, f in (("area", lambda t, w: hg.attribute_area(t)), ("contour length", lambda t, w: hg.attribute_contour_length(t, vertex_perimeter=np.full(w.n, 5.), edge_length=w.el)),
                  ("contour strength", lambda t, w: hg.attribute_contour_strength(t, w.ew, vertex_perimeter=np.full(w.n, 5.), edge_length=w.el)),
                  ("frontier length", lambda t, w: hg.attribute_frontier_length(t, w.el)), ("frontier strength", lambda t, w: hg.attribute_frontier_strength(t, w.ew)),
                  ("perimeter length component", lambda t, w: hg.attribute_contour_length(t)),
                  ("dasgupta", lambda t, w: hg.dasgupta_cost(t, w.ew, mode="similarity")),
                  ("dasgupta dissimilarity", lambda t, w: hg.dasgupta_cost(t, w.el, mode="dissimilarity")),
                  ("sampling divergence", lambda t, w: hg.tree_sampling_divergence(t, w.el)),
                  ("sampling edge", lambda t, w: hg.attribute_tree_sampling_probability(t, w.g, w.el, "edge")),
                  ("sampling null", lambda t, w: hg.attribute_tree_sampling_probability(t, w.g, w.el, "null")),
                  ("edge lca", lambda t, w: w.E(hg.attribute_lca_map(t)))):
        add("attribute " + nm, lambda w, f=f: f(hg.bpt_canonical(w.g, w.ew)[0], w))
    return T_


TABLE_REMOVED = table_removed()


def s_removed(draw):
    n = G.integer(draw, 2, 7)
    e = [[G.integer(draw, 0, i - 1), i] for i in range(1, n)]
    have = {tuple(x) for x in e}
    for s, t in zip(seq(draw, 6, n - 1), seq(draw, 6, n - 1)):
        if s < t and (s, t) not in have:
            have.add((s, t))
            e.append([s, t])
    r = seq(draw, len(e), len(e) - 1)
    for i, j in enumerate(r):
        e[i], e[j] = e[j], e[i]
    k = G.integer(draw, 1, 4)
    return {"e": e, "w": seq(draw, len(e), 9), "vw": seq(draw, n, 9), "lab": seq(draw, n, 2), "dt": G.choice(draw, ["float64", "int32", "uint8"]),
            "junk": [[p, s, t, x] for p, s, t, x in zip(seq(draw, k, 8), seq(draw, k, n - 1), seq(draw, k, n - 1), seq(draw, k, 9))],
            "f": seq(draw, 12, len(TABLE_REMOVED) - 1)}


def c_removed(c, ctx):
    hg.set_auto_cache_state(False)
    try:
        for i in c["f"]:
            name, f = TABLE_REMOVED[i]
            e = p25.canon(f(GW(c, False)))
            try:
                r = p25.canon(f(GW(c, True)))
            except (ValueError, TypeError, RuntimeError, IndexError) as ex:
                req(False, name, "fails on a graph with removed edges:", repr(ex)[:200])
            req(near(r, e, False), name, "is changed by removed edges", p25.show(r), p25.show(e))
            ctx.ev(name)
        return True
    finally:
        hg.set_auto_cache_state(True)


SUBTESTS = [
    Sub("mutated_arguments", s_fuzz, c_fuzz, 400, shard=50, rule="at least one call received a mutated argument or a foreign object"),
    Sub("lengths", s_length, c_length, 180, shard=25, rule="at least one call was rejected because of the length of an array"),
    Sub("indices", s_index, c_index, 500, shard=70, rule="at least one call was rejected"),
    Sub("construction", s_build, c_build, 900, shard=120, rule="any"),
    Sub("lifetimes", s_life, c_life, 300, shard=40, rule="at least one object outlived its owner"),
    Sub("value_types", s_types, c_types, 200, shard=28, rule="at least one call accepted the other type"),
    Sub("layouts", s_layout, c_layout, 300, shard=40, rule="at least one call accepted the other layout"),
    Sub("removed_edges", s_removed, c_removed, 400, shard=60, rule="any: at least one removed edge"),
]
