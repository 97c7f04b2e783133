"""P07: canonical BPT, quasi-flat zones, saliency, ultrametric opening, minimum spanning trees."""
import numpy as np
import higra as hg
from vlib.core import Sub, req
from vlib import gen as G
from vlib.ref import T, UF, arr, mat_edges, minimax
from vlib.hgc import mk_graph


def cgraph(draw, big=True):
    if big and draw(G.st.integers(0, 9)) == 0:
        import random
        r = random.Random(G.seed32(draw))
        n = r.randint(10, 60)
        E = [(i, r.randrange(i)) for i in range(1, n)] + [(r.randrange(n), r.randrange(n)) for _ in range(r.randint(0, 2 * n))]
        r.shuffle(E)
        return {"n": n, "s": [e[0] for e in E], "t": [e[1] for e in E]}
    return G.graph(draw, 8, 1, 10, loops=draw(G.st.booleans()))


def extreme(draw, w):
    """sometimes replace the palette by extreme values of the type"""
    if draw(G.st.integers(0, 5)) == 0:
        d = np.dtype(w["dtype"])
        if w["dtype"].startswith("float"):
            pal = [0.0, -1.0, float("inf"), float("-inf"), float(np.finfo(d).max), 1e-30, 1.0]
        else:
            i = np.iinfo(d)
            pal = [int(i.max), int(i.min), int(i.max) - 1, 0, 1]
        w = dict(w)
        w["v"] = [pal[int(abs(x) * 2) % len(pal)] for x in w["v"]]
    return w


def kruskal(n, E, order):
    u = UF(n)
    node = list(range(n))
    par = list(range(2 * n - 1))
    mst = []
    k = n
    for e in order:
        a, b = u.find(E[e][0]), u.find(E[e][1])
        if a == b:
            continue
        par[node[a]] = par[node[b]] = k
        u.union(a, b)
        node[u.find(a)] = k
        mst.append(e)
        k += 1
    return par, mst


# ------------------------------------------------------------------ canonical bpt
def s_bpt(draw):
    g = cgraph(draw)
    m = len(g["s"])
    form = G.choice(draw, ["graph", "graph", "order", "order_w", "triplet", "triplet_order"])
    ch = G.choice(draw, [None, None, None, 2, "2x2"])
    k = {None: 1, "2x2": 4}.get(ch, ch)
    w = extreme(draw, G.weights(draw, m * k, kinds=["ties", "small", "wide"], layout=ch is None and form in ("graph", "triplet")))
    key = G.seq(draw, m, 256)
    return {"g": g, "w": w, "ch": ch, "form": form, "order": sorted(range(m), key=lambda i: (key[i], i)),
            "alt": draw(G.st.integers(0, 3)) > 0, "mst": draw(G.st.booleans())}


def c_bpt(c, ctx):
    g, n = c["g"], c["g"]["n"]
    E = mat_edges(g)
    m = len(E)
    w = arr(c["w"])
    if c["ch"] is not None:
        w = w.reshape((m, 2) if c["ch"] == 2 else (m, 2, 2))
    form = c["form"]
    rows = [tuple(np.ravel(x).tolist()) for x in w]
    if "order" in form:
        order = c["order"]
    else:
        order = sorted(range(m), key=lambda i: rows[i])
    par, mst = kruskal(n, E, order)
    kw = {"return_altitudes": c["alt"], "compute_mst": c["mst"]}
    oarr = np.array(order, dtype=np.int64)
    w0 = w.copy()
    isg = "triplet" not in form
    gr = mk_graph(g) if isg else (np.array(g["s"], dtype=np.int64), np.array(g["t"], dtype=np.int64), n)
    has_w = form in ("graph", "triplet", "order_w")
    if m == 0 and w.ndim > 1:
        return False
    if form in ("graph", "triplet"):
        res = hg.bpt_canonical(gr, w, **kw)
    elif form == "order_w":
        res = hg.bpt_canonical(gr, w, oarr, **kw)
    else:
        res = hg.bpt_canonical(gr, sorted_edge_indices=oarr, **kw)
    req(np.array_equal(w, w0), "edge weights modified")
    tree, alt = res if c["alt"] else (res, None)
    req(tree.parents().tolist() == par, "parents", tree.parents().tolist(), par)
    req(tree.category() == hg.TreeCategory.PartitionTree, "category")
    mm = np.asarray(tree.mst_edge_map if isg else hg.get_attribute(tree, "mst_edge_map"))
    req(mm.tolist() == mst, "mst_edge_map", mm.tolist(), mst)
    if alt is not None:
        if has_w:
            req(alt.dtype == w.dtype and alt.shape == (2 * n - 1,) + w.shape[1:], "altitudes type", alt.dtype, alt.shape)
            exp = np.concatenate([np.zeros((n,) + w.shape[1:], w.dtype), w[mst]]) if m else np.zeros((n,) + w.shape[1:], w.dtype)
            req(np.array_equal(alt, exp), "altitudes", alt.tolist(), exp.tolist())
        else:
            rank = {e: i for i, e in enumerate(order)}
            req(alt.tolist() == [0] * n + [rank[e] for e in mst], "rank altitudes", alt.tolist())
    if isg:
        req(hg.CptHierarchy.get_leaf_graph(tree) is gr or tree.leaf_graph.num_edges() == m, "leaf graph")
        t2 = hg.CptBinaryHierarchy.get_mst(tree)
        req(t2.num_vertices() == n, "mst vertices")
        s, t = t2.edge_list()
        req([tuple(sorted(x)) for x in zip(s.tolist(), t.tolist())] == [tuple(sorted(E[e])) for e in mst], "mst edges", s, t)
        req(np.asarray(t2.mst_edge_map).tolist() == mst, "mst edge map of mst")
        if form == "graph" and w.ndim == 1 and alt is not None:
            sm = hg.saliency(tree, alt)
            M = minimax(n, E, w.tolist())
            for e, (a, b) in enumerate(E):
                req(a == b and sm[e] == 0 or sm[e] == M[a][b], "saliency", e, sm[e], M[a][b])
    ctx.ev(form)
    return n > 2 and len(set(rows)) < m


# ------------------------------------------------------------------ quasi-flat zones
def s_qfz(draw):
    g = cgraph(draw)
    w = extreme(draw, G.weights(draw, len(g["s"]), kinds=["ties", "ties", "small", "wide"]))
    return {"g": g, "w": w, "which": G.choice(draw, ["qfz", "canonize", "single", "open", "simplify", "fix"])}


def zones(n, E, w):
    """{frozenset region: smallest level} for regions of at least 2 vertices"""
    out = {}
    u = UF(n)
    for lv in sorted(set(w)):
        for e, (a, b) in enumerate(E):
            if w[e] == lv:
                u.union(a, b)
        comp = {}
        for v in range(n):
            comp.setdefault(u.find(v), []).append(v)
        for x in comp.values():
            if len(x) > 1:
                out.setdefault(frozenset(x), lv)
    return out


def c_qfz(c, ctx):
    g, n = c["g"], c["g"]["n"]
    E = mat_edges(g)
    w = arr(c["w"])
    wl = w.tolist()
    gr = mk_graph(g)
    which = c["which"]
    M = minimax(n, E, wl)
    esm = [0 if a == b else M[a][b] for a, b in E]
    w0 = w.copy()
    if which == "open":
        sm = hg.ultrametric_open(gr, w)
        req(len(sm) == len(E) and np.array_equal(sm, np.array(esm, dtype=w.dtype)), "ultrametric_open", sm.tolist(), esm)
        req(np.array_equal(hg.ultrametric_open(gr, sm), sm), "idempotence")
        req(np.array_equal(w, w0), "modified")
        return n > 2
    if which == "single":
        t, a = hg.binary_partition_tree_single_linkage(gr, w)
        req(t.parents().tolist() == kruskal(n, E, sorted(range(len(E)), key=lambda i: wl[i]))[0], "single linkage")
    else:
        if which == "canonize":
            t, a = hg.bpt_canonical(gr, w)
            t, a = hg.canonize_hierarchy(t, a)
        elif which == "simplify":
            t, a = hg.bpt_canonical(gr, w)
            t, nm = hg.simplify_tree(t, a == a[t.parents()])
            a = a[nm]
        elif which == "fix" and len(E):
            t, a = hg.quasi_flat_zone_hierarchy(gr, w)
            t, a = hg.quasi_flat_zone_hierarchy(gr, hg.saliency(t, a))
        else:
            t, a = hg.quasi_flat_zone_hierarchy(gr, w)
        p = t.parents().tolist()
        r = T(p)
        req(r.nl == n, "number of leaves", r.nl, n)
        if n > 1:
            wz = [x for x in wl]
            if which == "fix":
                wz = [x if a_ == b_ else M[a_][b_] for x, (a_, b_) in zip(wl, E)]
            Z = zones(n, E, wz)
            got = {}
            for i in r.inner():
                req(r.leaves_of[i] not in got, "region appears twice", sorted(r.leaves_of[i]))
                got[r.leaves_of[i]] = a[i]
                q = r.p[i]
                if q != i:
                    req(a[q] > a[i], "altitudes do not strictly increase", i, a.tolist())
            req(got == Z, "zones", {tuple(sorted(k)): v for k, v in got.items()}, {tuple(sorted(k)): v for k, v in Z.items()})
        req(np.all(a[:n] == 0), "leaf altitudes", a.tolist())
        req(a.dtype == w.dtype, "altitude type", a.dtype)
    sm = hg.saliency(t, a)
    if len(E):
        req(np.array_equal(sm, np.array(esm, dtype=w.dtype)), "saliency", sm.tolist(), esm)
    req(np.array_equal(w, w0), "modified")
    ctx.ev(which)
    return n > 2 and len(set(wl)) < len(wl)


# ------------------------------------------------------------------ saliency of any hierarchy
def s_sal(draw):
    p = G.tree(draw, 9, 8, big=60)
    n = G.num_leaves(p)
    g = G.graph(draw, n, n, 10, connected=draw(G.st.booleans()), loops=draw(G.st.booleans()))
    return {"p": p, "g": g, "a": G.weights(draw, len(p)), "link": draw(G.st.booleans()),
            "children": draw(G.st.integers(0, 2))}


def c_sal(c, ctx):
    from vlib.hgc import mk_tree
    r = T(c["p"])
    t = mk_tree(c["p"], c["children"])
    gr = mk_graph(c["g"])
    a = arr(c["a"])
    E = mat_edges(c["g"])
    if not E:
        return False
    if c["link"]:
        hg.CptHierarchy.link(t, gr)
        sm = hg.saliency(t, a)
    else:
        sm = hg.saliency(t, a, gr)
    exp = [a[r.lca(x, y)] for x, y in E]
    req(sm.dtype == a.dtype and np.array_equal(sm, np.array(exp, dtype=a.dtype)), "saliency", sm.tolist(), exp)
    return len(E) > 2


# ------------------------------------------------------------------ minimum spanning tree / forest
def s_mst(draw):
    g = G.graph(draw, 9, 1, 12, connected=draw(G.st.booleans()), loops=draw(G.st.booleans()))
    w = extreme(draw, G.weights(draw, len(g["s"]), kinds=["ties", "small", "wide"]))
    return {"g": g, "w": w, "bpt": draw(G.st.booleans()), "cm": draw(G.st.booleans())}


def c_mst(c, ctx):
    g, n = c["g"], c["g"]["n"]
    E = mat_edges(g)
    w = arr(c["w"])
    wl = w.tolist()
    gr = mk_graph(g)
    mst = hg.minimum_spanning_tree(gr, w)
    em = np.asarray(mst.mst_edge_map).tolist()
    req(mst.num_vertices() == n, "vertices")
    req(len(set(em)) == len(em) and all(0 <= e < len(E) for e in em), "edge map", em)
    s, t = mst.edge_list()
    req([tuple(sorted(x)) for x in zip(s.tolist(), t.tolist())] == [tuple(sorted(E[e])) for e in em], "edges", em)
    u = UF(n)
    for e in em:
        req(u.union(*E[e]), "cycle in the spanning tree", em)
    ref = UF(n)
    tot = []
    for e in sorted(range(len(E)), key=lambda i: wl[i]):
        if ref.union(*E[e]):
            tot.append(wl[e])
    req(sorted(wl[e] for e in em) == tot, "weights of the spanning forest", sorted(wl[e] for e in em), tot)
    if c["bpt"] and n > 1 and len(em) == n - 1:
        # hierarchy on a spanning tree: described on the base graph
        wm = w[em]
        tree, alt = hg.bpt_canonical(mst, wm, compute_mst=c["cm"])
        par, sel = kruskal(n, [E[e] for e in em], sorted(range(n - 1), key=lambda i: wm[i]))
        req(tree.parents().tolist() == par, "bpt of a spanning tree", tree.parents().tolist())
        lg = tree.leaf_graph
        req(lg.num_edges() == len(E), "leaf graph of the bpt of a spanning tree", lg.num_edges())
        mm = np.asarray(tree.mst_edge_map).tolist()
        req(mm == [em[x] for x in sel], "mst_edge_map in the leaf graph", mm, [em[x] for x in sel])
        t2 = hg.CptBinaryHierarchy.get_mst(tree)
        s, t = t2.edge_list()
        req([tuple(sorted(x)) for x in zip(s.tolist(), t.tolist())] == [tuple(sorted(E[em[x]])) for x in sel], "mst of the tree")
        req(np.asarray(t2.mst_edge_map).tolist() == mm, "mst_edge_map of the mst", np.asarray(t2.mst_edge_map).tolist(), mm)
        um = hg.ultrametric_open(mst, wm)
        req(np.array_equal(um, wm), "ultrametric opening on a tree", um.tolist(), wm.tolist())
        ctx.ev("bpt of mst")
    return len(em) > 2


# ------------------------------------------------------------------ random hierarchies
def s_rand(draw):
    return {"n": G.integer(draw, 1, G.sz(20)), "a": G.choice(draw, [0, 1, 0.5, 0.1, 0.9]), "seed": G.seed32(draw)}


def c_rand(c, ctx):
    import random
    n = c["n"]
    state = random.getstate()
    random.seed(c["seed"])
    try:
        t, alt = hg.random_binary_partition_tree(n, c["a"])
    finally:
        random.setstate(state)
    r = T(t.parents().tolist())
    req(r.nl == n and r.n == 2 * n - 1, "number of nodes", r.nl, r.n, n)
    req(all(len(r.ch[i]) == 2 for i in range(n, r.n)), "not binary", r.p)
    if n > 1:
        top = max(r.depth)
        req(np.allclose(alt, [0 if i < n else 1 - r.depth[i] / top for i in range(r.n)]), "not regular altitudes", alt)
        if c["a"] == 1:
            req(top == n - 1, "probability 1: the tree is not a comb", r.p)
        if c["a"] == 0:
            d = {r.depth[i] for i in range(n)}
            req(max(d) - min(d) <= 1, "probability 0: the tree is not balanced", r.p)
    mst = hg.CptBinaryHierarchy.get_mst(t)
    leaf = hg.CptHierarchy.get_leaf_graph(t)
    for g in (mst, leaf):
        req(g.num_vertices() == n and g.num_edges() == n - 1, "size of the leaf graph", g.num_vertices(), g.num_edges())
    E = list(zip(*[x.tolist() for x in mst.edge_list()]))
    req(sorted(r.lca(a, b) for a, b in E) == list(range(n, r.n)), "the spanning tree does not have one edge per inner node", E, r.p)
    F = list(zip(*[x.tolist() for x in leaf.edge_list()]))
    m = np.asarray(hg.CptBinaryHierarchy.construct(t)["mst_edge_map"]).tolist()
    for k, i in enumerate(m):
        req(r.lca(*F[i]) == n + k, "edge map of the spanning tree", m)
    return n > 3


SUBTESTS = [
    Sub("random_tree", s_rand, c_rand, 400, rule="more than 3 leaves", shard=100),
    Sub("bpt_canonical", s_bpt, c_bpt, 2500, rule="more than 2 vertices and tied weights", shard=300),
    Sub("quasi_flat_zones", s_qfz, c_qfz, 2500, rule="more than 2 vertices and tied weights", shard=300),
    Sub("saliency", s_sal, c_sal, 1000, rule="more than 2 edges", shard=200),
    Sub("mst", s_mst, c_mst, 1500, rule="at least 3 tree edges", shard=250),
]
