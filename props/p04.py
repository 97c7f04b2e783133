"""P04: lowest common ancestors against the parent-chain definition."""
import copy
import pickle
import numpy as np
import higra as hg
from vlib.core import Sub, req
from vlib import gen as G
from vlib.ref import T
from vlib.hgc import mk_tree, mk_graph

IDX = ["int32", "uint32", "int64", "uint64"]
FORMS = ["plain", "pre_default", "pre_st", "pre_block", "st", "stb", "stb_default"]
COPIES = ["none", "copy", "deepcopy", "pickle", "used", "tree_pickle"]


def s_lca(draw):
    p = G.tree(draw, 14, 14, big=150)
    return {"p": p, "form": G.choice(draw, FORMS), "copy": G.choice(draw, COPIES),
            "bs": G.choice(draw, [1, 2, 3, 4, 5, 7, 8, 16, 31, 64, 1024]), "dtype": G.choice(draw, IDX),
            "seed": G.seed32(draw), "pre": draw(G.st.booleans()), "step": draw(G.st.integers(1, 2))}


def s_large(draw):
    c = s_lca(draw)
    import random
    r = random.Random(G.seed32(draw))
    L = r.choice([255, 256, 257, 511, 512, 513, 514, 700, 1024, 1025])
    kind = r.randint(0, 2)
    I = r.choice([1, 5, 50, L - 1, L])
    b = [r.randrange(256) for _ in range(4 * (L + I))] if kind < 2 else [r.choice([0, 100]) for _ in range(4 * (L + I))]
    c["p"] = G.parents_from(L, I, b, kind == 0, kind == 1)
    c["bs"] = r.choice([1, 2, 16, 255, 256, 1023, 1024, 1025, 4000])
    return c


def make(c, t):
    """(function of scalars, function of arrays, object or None)"""
    f = c["form"]
    if f == "plain":
        return t
    if f == "pre_default":
        t.lowest_common_ancestor_preprocess()
        return t
    if f == "pre_st":
        t.lowest_common_ancestor_preprocess(algorithm="sparse_table")
        return t
    if f == "pre_block":
        if c["pre"]:
            t.lowest_common_ancestor_preprocess(algorithm="sparse_table")
        t.lowest_common_ancestor_preprocess(algorithm="sparse_table_block", block_size=c["bs"], force_recompute=True)
        return t
    if f == "st":
        return hg.LCA_rmq_sparse_table(t)
    if f == "stb":
        return hg.LCA_rmq_sparse_table_block(t, c["bs"])
    return hg.LCA_rmq_sparse_table_block(t)


def c_lca(c, ctx):
    r = T(c["p"])
    t = mk_tree(c["p"])
    o = make(c, t)
    tree_form = o is t

    def q1(a, b):
        return o.lowest_common_ancestor(a, b) if tree_form else o.lca(a, b)

    if c["copy"] == "used":
        q1(0, r.root)
        q1(r.root, 0)
    elif c["copy"] != "none" and (not tree_form or c["copy"] in ("pickle", "tree_pickle", "copy")):
        o2 = {"copy": copy.copy, "deepcopy": copy.deepcopy}.get(c["copy"], lambda x: pickle.loads(pickle.dumps(x)))(o)
        if c["pre"]:
            o = o2
            del t
        else:  # the original must not be affected by the copy
            q = q1(0, r.root)
            req(q == r.root, "root", q)
    n = r.n
    if n <= 24:
        A, B = np.meshgrid(np.arange(n), np.arange(n))
        A, B = A.ravel(), B.ravel()
    else:
        rs = np.random.RandomState(c["seed"] % (1 << 31))
        A, B = rs.randint(0, n, 400), rs.randint(0, n, 400)
    exp = [r.lca(int(a), int(b)) for a, b in zip(A, B)]
    for k in range(0, len(A), c["step"] if n < 12 else 7):
        g = q1(int(A[k]), int(B[k]))
        req(g == exp[k], "scalar lca", int(A[k]), int(B[k]), g, exp[k])
    dt = "int64" if tree_form else c["dtype"]
    a, b = A.astype(dt), B.astype(dt)
    if c["step"] == 2:
        bb = np.zeros(2 * len(b), dtype=dt)
        bb[::2] = b
        b = bb[::2]
    g = o.lowest_common_ancestor(a, b) if tree_form else o.lca(a, b)
    bad = [(int(x), int(y), int(z), e) for x, y, z, e in zip(A, B, g, exp) if z != e]
    req(len(g) == len(exp) and not bad, "array lca", bad[:3])
    ctx.ev(c["form"])
    ctx.ev(c["copy"])
    return r.n - r.nl >= 2


def s_map(draw):
    g = G.graph(draw, 12, 2, 10, loops=True)
    p = G.tree(draw, g["n"], 8, min_leaves=g["n"], single=False)
    return {"g": g, "p": p, "form": draw(G.st.integers(0, 3)), "bs": G.choice(draw, [1, 2, 3, 4, 8])}


def c_map(c, ctx):
    r = T(c["p"])
    t = mk_tree(c["p"])
    g = mk_graph(c["g"])
    exp = [r.lca(a, b) for a, b in zip(c["g"]["s"], c["g"]["t"])]
    if c["form"] == 0:
        hg.CptHierarchy.link(t, g)
        m = hg.attribute_lca_map(t)
    elif c["form"] == 1:
        m = hg.attribute_lca_map(t, g)
    elif c["form"] == 2:
        m = hg.LCA_rmq_sparse_table(t).lca(g)
    else:
        m = hg.LCA_rmq_sparse_table_block(t, c["bs"]).lca(g)
    req(list(m) == exp, "lca map", list(m), exp)
    # an edge towards a vertex that is not a node of the tree has no ancestor: not a result
    g = mk_graph(c["g"])
    g.add_vertices(r.n - g.num_vertices() + 1)
    g.add_edge(0, r.n)
    calls = [lambda: hg.attribute_lca_map(t, g), lambda: hg.LCA_rmq_sparse_table(t).lca(g), lambda: hg.LCA_rmq_sparse_table_block(t, c["bs"]).lca(g)]
    try:
        m = calls[c["form"] % 3]()
    except Exception:
        ctx.ev("too large graph rejected")
    else:
        req(False, "lca of an edge whose extremity is not in the tree", list(m)[-1], "tree of", r.n, "nodes")
    return len(exp) > 1


SUBTESTS = [
    Sub("pairs", s_lca, c_lca, 5000, rule="at least two inner nodes"),
    Sub("large", s_large, c_lca, 120, rule="at least two inner nodes", shard=15),
    Sub("edges", s_map, c_map, 2500, rule="at least two edges"),
]
