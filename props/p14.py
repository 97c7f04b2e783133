"""P14: tree simplifications, filters, sorting, isomorphism, reconstruction, markers."""
from collections import Counter
import numpy as np
import higra as hg
from vlib.core import Sub, req, Skip
from vlib import gen as G
from vlib.ref import T, UF, arr, mat_edges, minimax
from vlib.hgc import mk_graph, mk_tree


# ------------------------------------------------------------------ simplify_tree
def s_simplify(draw):
    p = G.tree(draw, 8, 9, big=40)
    n = len(p)
    thr = G.choice(draw, [1, 2, 2, 3])
    dl = [int(x < thr) for x in G.seq(draw, n, 4)]
    if draw(G.st.integers(0, 5)) == 0:
        dl = [1] * n
    return {"p": p, "d": dl, "leaves": draw(G.st.booleans()), "ch": draw(G.st.integers(0, 2)),
            "dt": G.choice(draw, ["bool", "bool", "bool", "uint8", "int64", "float64"]), "link": draw(G.st.booleans()),
            "cat": draw(G.st.booleans())}


def c_simplify(c, ctx):
    p, dl = c["p"], c["d"]
    r = T(p)
    n, nl = r.n, r.nl
    cat = hg.TreeCategory.ComponentTree if c["cat"] else hg.TreeCategory.PartitionTree
    tree = mk_tree(p, c["ch"], cat)
    gr = None
    if c["link"]:
        gr = hg.UndirectedGraph(nl)
        hg.CptHierarchy.link(tree, gr)
    d = np.array(dl, dtype=c["dt"])
    d0 = d.copy()
    nt, nm = hg.simplify_tree(tree, d, c["leaves"])
    req(np.array_equal(d, d0) and tree.parents().tolist() == p, "arguments modified")
    keep = [i for i in range(n) if p[i] == i or not dl[i] or (i < nl and not c["leaves"])]
    nm = nm.tolist()
    q = nt.parents().tolist()
    req(sorted(nm) == keep, "kept nodes", sorted(nm), "expected", keep)
    req(len(q) == len(nm), "node map size", len(q), len(nm))
    req(nt.category() == cat, "category lost")
    T(q)
    ks = set(keep)
    for i in range(len(q)):
        if nm[i] == n - 1:
            req(q[i] == i, "root", i)
            continue
        want = next(a for a in r.anc(nm[i])[1:] if a in ks)
        req(nm[q[i]] == want, "parent of kept node", nm[i], "is", nm[q[i]], "expected", want)
    # a kept node is a leaf iff it has no kept strict descendant
    for i in range(nt.num_vertices()):
        isl = not any(j in ks and j != nm[i] and nm[i] in r.anc(j) for j in range(nm[i]))
        req((i < nt.num_leaves()) == isl, "leaf status of", nm[i])
        req(sorted(nt.children(i).tolist()) == [j for j in range(len(q)) if q[j] == i and j != i], "children of", i)
    if not c["leaves"]:
        req(nm[:nl] == list(range(nl)), "leaves renumbered", nm[:nl])
        if gr is not None:
            req(hg.CptHierarchy.validate(nt) and hg.CptHierarchy.get_leaf_graph(nt) is gr, "leaf graph lost")
    elif hg.CptHierarchy.validate(nt):
        req(hg.CptHierarchy.get_leaf_graph(nt).num_vertices() == nt.num_leaves(), "leaf graph does not match the leaves",
            hg.CptHierarchy.get_leaf_graph(nt).num_vertices(), nt.num_leaves())
    ctx.ev("leaves processed" if c["leaves"] else "leaves kept")
    if any(i >= nl and not r.ch[i] == [] and nm.index(i) < nt.num_leaves() for i in keep if i >= nl):
        ctx.ev("inner node became a leaf")
    return 1 < len(keep) < n and n > 4


# ------------------------------------------------------------------ canonization, binarization
def s_canon(draw):
    p = G.tree(draw, 9, 9, big=40)
    n = len(p)
    a = G.weights(draw, n, kinds=["ties", "ties", "small"]) if draw(G.st.booleans()) else \
        G.increasing_altitudes(draw, p, levels=G.choice(draw, [2, 3]), dtypes=["float64", "int32", "float32", "uint16"])
    p2 = G.tree(draw, 10, 6, unary=False, big=30)
    return {"p": p, "a": a, "p2": p2, "rm": draw(G.st.booleans()), "ch": draw(G.st.integers(0, 2))}


def fix_unary(p):
    """drop inner nodes with one child"""
    r = T(p)
    keep = [i for i in range(r.n) if i < r.nl or len(r.ch[i]) > 1]
    if len(keep) == r.n or r.n == 1:
        return p if r.n > 1 else p
    # root must stay meaningful: re-root on the highest kept node
    pos = {k: i for i, k in enumerate(keep)}
    q = []
    for k in keep:
        a = [x for x in r.anc(k)[1:] if x in pos]
        q.append(pos[a[0]] if a else pos[k])
    return q


def c_canon(c, ctx):
    p = c["p"]
    r = T(p)
    n, nl = r.n, r.nl
    a = arr(c["a"])
    al = a.tolist()
    tree = mk_tree(p, c["ch"])
    gr = hg.UndirectedGraph(nl)
    hg.CptHierarchy.link(tree, gr)
    res = hg.canonize_hierarchy(tree, a, c["rm"])
    nt, na = res[0], res[1]
    keep = [i for i in range(n) if i < nl or p[i] == i or al[i] != al[p[i]]]
    q = nt.parents().tolist()
    t = T(q)
    req(len(q) == len(keep) and t.nl == nl, "kept nodes", len(q), len(keep))
    if c["rm"]:
        nm = res[2].tolist()
        req(sorted(nm) == keep and na.tolist() == [al[i] for i in nm], "node map", nm, keep)
    req(na.dtype == a.dtype, "dtype")
    exp = Counter((r.leaves_of[i], al[i]) for i in keep if i >= nl)
    got = Counter((t.leaves_of[i], na[i].item()) for i in range(nl, t.n))
    req(exp == got and na[:nl].tolist() == al[:nl], "canonized hierarchy")
    req(hg.CptHierarchy.get_leaf_graph(nt) is gr, "leaf graph lost")
    # binarization
    p2 = fix_unary(c["p2"])
    r2 = T(p2)
    t2 = mk_tree(p2, c["ch"])
    bt, nm = hg.tree_2_binary_tree(t2)
    nm = nm.tolist()
    b = T(bt.parents().tolist())
    req(b.n == 2 * r2.nl - 1 and b.nl == r2.nl and len(nm) == b.n, "size of the binary tree", b.n, r2.nl)
    for i in range(b.nl, b.n):
        req(len(b.ch[i]) == 2, "node", i, "is not binary")
        req(b.leaves_of[i] <= r2.leaves_of[nm[i]], "node map", i)
    req(nm[:r2.nl] == list(range(r2.nl)), "leaves")
    bs = {b.leaves_of[i]: i for i in range(b.n)}
    for i in range(r2.n):
        req(r2.leaves_of[i] in bs and nm[bs[r2.leaves_of[i]]] == i, "region", sorted(r2.leaves_of[i]), "of node", i, "lost")
    for i in range(b.nl, b.n):  # an inserted node is a strict subset of the node it stands for, and a union of its children
        ch = [x for x in r2.ch[nm[i]]]
        s = b.leaves_of[i]
        req(all(r2.leaves_of[x] <= s or not (r2.leaves_of[x] & s) for x in ch), "inserted node", i)
    return len(keep) < n and any(len(x) > 2 for x in r2.ch)


# ------------------------------------------------------------------ sorting and isomorphism
def s_sort(draw):
    p = G.tree(draw, 9, 8, big=40, min_leaves=3)
    a = G.increasing_altitudes(draw, p, levels=G.choice(draw, [2, 3, 6]), dtypes=["float64", "int32", "uint8", "int64", "float32"])
    if a["dtype"] == "uint8" and max(a["v"]) > 255:
        a["dtype"] = "uint16"
    return {"p": p, "a": a, "k": G.seq(draw, len(p), 256), "mut": G.seq(draw, 3, 256), "ch": draw(G.st.integers(0, 2))}


def renumber(p, key):
    """an isomorphic parent array with another order of the inner nodes (leaves unchanged)"""
    r = T(p)
    if r.n <= r.nl + 1:
        return list(p)
    left = [len([c for c in r.ch[i] if c >= r.nl]) for i in range(r.n)]
    ready = [i for i in r.inner() if left[i] == 0]
    order = list(range(r.nl))
    k = 0
    while ready:
        ready.sort(key=lambda i: (key[i], i))
        i = ready.pop(key[k % len(key)] % len(ready))
        k += 1
        order.append(i)
        if p[i] != i:
            left[p[i]] -= 1
            if left[p[i]] == 0:
                ready.append(p[i])
    pos = {x: i for i, x in enumerate(order)}
    return [pos[p[x]] for x in order]


def c_sort(c, ctx):
    p = c["p"]
    r = T(p)
    a = arr(c["a"])
    al = a.tolist()
    tree = mk_tree(p, c["ch"])
    st, sa, nm = hg.sort_hierarchy_with_altitudes(tree, a)
    nm = nm.tolist()
    q = st.parents().tolist()
    req(sorted(nm) == list(range(r.n)), "node map is not a permutation", nm)
    req(sa.tolist() == [al[i] for i in nm] and sa.dtype == a.dtype, "altitudes do not follow the node map")
    req(all(sa[i] <= sa[i + 1] for i in range(r.n - 1)), "not sorted", sa.tolist())
    for i in range(r.n):
        req(nm[q[i]] == p[nm[i]], "parent of", nm[i])
    req(sorted(nm[:r.nl]) == list(range(r.nl)) and st.num_leaves() == r.nl, "leaves", nm[:r.nl])
    # isomorphism
    p2 = renumber(p, c["k"])
    t2 = mk_tree(p2, 1 - c["ch"] % 2)
    req(hg.test_tree_isomorphism(tree, t2) is True and hg.test_tree_isomorphism(t2, tree) is True, "isomorphic trees", p, p2)
    # a modified tree
    m = c["mut"]
    i = m[0] % (r.n - 1) if r.n > 1 else 0
    p3 = list(p2)
    if m[2] % 3 and r.n > 2:
        lo = max(i + 1, r.nl)
        p3[i] = lo + m[1] % (r.n - lo)
    elif r.nl > 1:
        j = m[1] % r.nl
        i = i % r.nl
        p3[i], p3[j] = p3[j], p3[i]
    r3 = T(p3)
    if r3.nl == r.nl and all(x or k < r.nl for k, x in enumerate(r3.ch)):
        same = Counter(r3.leaves_of) == Counter(r.leaves_of)
        t3 = mk_tree(p3)
        req(hg.test_tree_isomorphism(tree, t3) is same and hg.test_tree_isomorphism(t3, tree) is same, "isomorphism of", p, "and", p3, "is", same)
        ctx.ev("same" if same else "different")
    return r.n > 6 and p2 != p


# ------------------------------------------------------------------ reconstruction and markers
def s_rec(draw):
    p = G.tree(draw, 9, 8, big=40)
    n = len(p)
    nl = G.num_leaves(p)
    ch = G.choice(draw, [None, None, 2])
    mk = [2, 3, 4, 6][draw(G.st.integers(0, 3))]
    return {"p": p, "a": G.weights(draw, n, channels=ch), "d": [int(x > 1) for x in G.seq(draw, n, 4)],
            "cat": draw(G.st.booleans()), "del": draw(G.st.integers(0, 2)) > 0, "ddt": G.choice(draw, ["bool", "bool", "uint8", "int32"]),
            "o": [int(x == 0) for x in G.seq(draw, nl, mk)], "b": [int(x == 0) for x in G.seq(draw, nl, mk)],
            "odt": G.choice(draw, ["bool", "uint8", "int64", "float64", "int8"]), "bdt": G.choice(draw, ["bool", "uint8", "int64", "float64"]),
            "ov": G.choice(draw, [1, 1, 2, 100, .5, -1, 4]), "bv": G.choice(draw, [1, 1, 3, 128, .25]), "ch": draw(G.st.integers(0, 2)),
            "img": draw(G.st.booleans())}


def c_rec(c, ctx):
    p = c["p"]
    r = T(p)
    n, nl = r.n, r.nl
    tree = mk_tree(p, c["ch"], hg.TreeCategory.ComponentTree if c["cat"] else hg.TreeCategory.PartitionTree)
    shape = (nl,)
    if c["img"]:
        shape = (1, nl) if nl % 2 else (2, nl // 2)
        hg.CptHierarchy.link(tree, hg.get_4_adjacency_graph(shape))
    a = arr(c["a"])
    if n > 1:
        if c["del"]:
            d = np.array(c["d"], dtype=c["ddt"])
            d0 = d.copy()
            res = hg.reconstruct_leaf_data(tree, a, d)
            req(np.array_equal(d, d0), "deleted_nodes modified")
            src = []
            for v in range(nl):
                i = v
                while p[i] != i and (c["d"][i] or (c["cat"] and i < nl)):
                    i = p[i]
                src.append(i)
        else:
            res = hg.reconstruct_leaf_data(tree, a)
            src = [p[v] if c["cat"] else v for v in range(nl)]
        req(res.shape == shape + a.shape[1:] and res.dtype == a.dtype, "shape", res.shape, res.dtype)
        req(np.array_equal(res.reshape((nl,) + a.shape[1:]), a[np.array(src)]), "reconstruction", res.tolist(), src)
    # markers
    ov, bv = c["ov"], c["bv"]
    if c["odt"] == "bool" or (c["odt"] != "float64" and ov != int(ov)) or (c["odt"].startswith("u") and ov < 0):
        ov = 1
    if c["bdt"] == "bool" or (c["bdt"] != "float64" and bv != int(bv)):
        bv = 1
    o = np.array([x * ov for x in c["o"]], dtype=c["odt"]).reshape(shape)
    b = np.array([x * bv for x in c["b"]], dtype=c["bdt"]).reshape(shape)
    o0, b0 = o.copy(), b.copy()
    lab = hg.binary_labelisation_from_markers(tree, o, b)
    so = {v for v in range(nl) if c["o"][v]}
    sb = {v for v in range(nl) if c["b"][v]}
    exp = set()
    for x in r.leaves_of:
        if x & so and not x & sb:
            exp |= x
    req(lab.shape == shape, "shape of the labels", lab.shape)
    got = {v for v, x in enumerate(lab.ravel().tolist()) if x}
    req(got == exp, "markers: object", sorted(so), "background", sorted(sb), "result", sorted(got), "expected", sorted(exp))
    req(set(lab.ravel().tolist()) <= {0, 1}, "labels", lab.tolist())
    req(np.array_equal(o, o0) and np.array_equal(b, b0), "markers modified")
    ctx.ev("markers " + ("empty" if not exp else "non empty"))
    return nl > 3 and 0 < len(exp) < nl


# ------------------------------------------------------------------ filters
def s_filter(draw):
    img = draw(G.st.integers(0, 2)) == 0
    if img:
        sh = [G.integer(draw, 1, G.sz(4, 2)), G.integer(draw, 1, G.sz(4, 2))]
        g = {"n": sh[0] * sh[1], "sh": sh}
        m = sh[0] * (sh[1] - 1) + sh[1] * (sh[0] - 1)
    else:
        g = G.graph(draw, 9, 1, 8)
        m = len(g["s"])
    return {"g": g, "w": G.weights(draw, m, dtypes=["float64", "int32", "float32", "uint8"], kinds=["ties", "small", "small"], nonneg=True, layout=False),
            "kind": G.choice(draw, ["bpt", "bpt", "qfz", "avg", "ws"]), "fw": G.weights(draw, m, dtypes=["float64"], nonneg=True, layout=False),
            "del": [int(x < 2) for x in G.seq(draw, 2 * g["n"], 4)], "size": G.integer(draw, 1, 6),
            "thr": G.integer(draw, 0, 6) + .37, "canon": draw(G.st.booleans()),
            "rdt": G.choice(draw, ["bool", "bool", "int64", "uint8"])}


def c_filter(c, ctx):
    g = c["g"]
    n = g["n"]
    w = arr(c["w"])
    if "sh" in g:
        gr = hg.get_4_adjacency_graph(g["sh"])
        s, t = gr.edge_list()
        E = list(zip(s.tolist(), t.tolist()))
    else:
        gr = mk_graph(g)
        E = mat_edges(g)
    if not E:
        raise Skip()
    va = [1] * n
    if c["kind"] == "bpt":
        tree, alt = hg.bpt_canonical(gr, w)
    elif c["kind"] == "qfz":
        tree, alt = hg.quasi_flat_zone_hierarchy(gr, w)
    elif c["kind"] == "avg":
        tree, alt = hg.binary_partition_tree_complete_linkage(gr, w.astype(np.float64))
    else:
        tree, alt = hg.watershed_hierarchy_by_area(gr, w)
        ctx.ev("watershed hierarchy, %s" % ("binary" if hg.CptBinaryHierarchy.validate(tree) else "canonized"))
    binary = hg.CptBinaryHierarchy.validate(tree)
    alt0 = alt.copy()
    al = alt.tolist()
    p = tree.parents().tolist()
    r = T(p)
    ew = arr(c["fw"])

    def common(res, what):
        nt, na = res
        t = T(nt.parents().tolist())
        req(t.nl == n and len(na) == t.n, what, "leaves")
        req(nt.parents().tolist() == t.p, what)
        lg = hg.CptHierarchy.get_leaf_graph(nt)
        req(lg.num_vertices() == n, what, "leaf graph")
        a = na.tolist()
        for i in t.inner():
            if t.p[i] != i:
                req(a[i] < a[t.p[i]] if c["canon"] else a[i] <= a[t.p[i]], what, "altitudes of the result", a, t.p)
        if not c["canon"]:
            req(all(len(t.ch[i]) == 2 for i in t.inner()) and hg.CptBinaryHierarchy.validate(nt), what, "is not binary")
            req(hg.CptBinaryHierarchy.get_mst(nt).num_edges() == n - 1, what, "mst")
        req(hg.saliency(nt, na).shape == (lg.num_edges(),), what, "saliency of the result")
        return t, a

    def same(t, a, W, M, what):
        d = minimax(n, M, W)
        for x in range(n):
            for y in range(x):
                req(a[t.lca(x, y)] == d[x][y], what, "level between leaves", x, y, "is", a[t.lca(x, y)], "expected", d[x][y])

    if binary:
        mst = hg.CptBinaryHierarchy.get_mst(tree)
        s, t = mst.edge_list()
        M = list(zip(s.tolist(), t.tolist()))
        for i, (x, y) in enumerate(M):
            req(r.lca(x, y) == n + i, "spanning tree edge", i)
        dl = c["del"][:len(p)]
        res = hg.filter_non_relevant_node_from_tree(tree, alt, lambda t_, a_: np.array(dl, dtype=c["rdt"]), canonize_tree=c["canon"])
        t, a = common(res, "filter_non_relevant_node_from_tree")
        same(t, a, [0 if dl[n + i] else al[n + i] for i in range(n - 1)], M, "filter_non_relevant_node_from_tree")
        area = [sum(va[v] for v in x) for x in r.leaves_of]
        res = hg.filter_small_nodes_from_tree(tree, alt, c["size"], canonize_tree=c["canon"])
        t, a = common(res, "filter_small_nodes_from_tree")
        same(t, a, [0 if min(area[k] for k in r.ch[n + i]) < c["size"] else al[n + i] for i in range(n - 1)], M, "filter_small_nodes_from_tree")
        res = hg.filter_weak_frontier_nodes_from_tree(tree, alt, ew, c["thr"], canonize_tree=c["canon"])
        t2, a2 = common(res, "filter_weak_frontier_nodes_from_tree")
        fr = {}
        for k, (x, y) in enumerate(E):
            fr.setdefault(r.lca(x, y), []).append(ew[k])
        st = [sum(fr[n + i]) / len(fr[n + i]) for i in range(n - 1)]
        if any(abs(x - c["thr"]) < 1e-6 for x in st):
            raise Skip()
        same(t2, a2, [0 if x < c["thr"] else al[n + i] for i, x in enumerate(st)], M, "filter_weak_frontier_nodes_from_tree")
    else:
        res = hg.filter_non_relevant_node_from_tree(tree, alt, lambda t_, a_: np.zeros(t_.num_vertices(), dtype=bool), canonize_tree=c["canon"])
        t, a = common(res, "filter_non_relevant_node_from_tree")
        for x in range(n):
            for y in range(x):
                req(a[t.lca(x, y)] == al[r.lca(x, y)], "filter without non relevant node changes the level of", x, y)
        res = hg.filter_small_nodes_from_tree(tree, alt, c["size"], canonize_tree=c["canon"])
        t, a = common(res, "filter_small_nodes_from_tree")
        for x in range(n):
            for y in range(x):
                req(a[t.lca(x, y)] <= al[r.lca(x, y)], "filter raises the level of", x, y)
    tot = sum(va)
    for k in sorted(set(a[n:])):  # every region of every partition is large enough
        for i in range(t.n):
            if (a[i] if i >= n else 0) <= k and t.p[i] != i and a[t.p[i]] > k and k >= 0:
                sz = sum(va[v] for v in t.leaves_of[i])
                req(sz >= min(c["size"], tot), "region", sorted(t.leaves_of[i]), "of level", k, "is too small:", sz)
    req(np.array_equal(alt, alt0) and tree.parents().tolist() == p, "arguments modified")
    ctx.ev(c["kind"])
    return n > 3 and t.n > n + 1


SUBTESTS = [
    Sub("simplify_tree", s_simplify, c_simplify, 2500, rule="some node deleted, more than 4 nodes", shard=320),
    Sub("canonize_binarize", s_canon, c_canon, 1500, rule="a node is removed and a node is split", shard=200),
    Sub("sort_isomorphism", s_sort, c_sort, 2000, rule="more than 6 nodes, renumbered", shard=250),
    Sub("reconstruct_markers", s_rec, c_rec, 2500, rule="more than 3 leaves, object neither empty nor everything", shard=320),
    Sub("filters", s_filter, c_filter, 2000, rule="more than 3 leaves, several levels left", shard=250),
]
