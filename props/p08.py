"""P08: agglomerative binary partition trees merge a currently closest pair."""
import hashlib
import numpy as np
import higra as hg
from vlib.core import Sub, req
from vlib import gen as G
from vlib.ref import T, arr, mat_edges, components
from vlib.hgc import mk_graph


def bgraph(draw, conn=True):
    if draw(G.st.integers(0, 11)) == 0:
        import random
        r = random.Random(G.seed32(draw))
        n = r.randint(10, 24)
        E = [(i, r.randrange(i)) for i in range(1, n)]
        for _ in range(r.randint(0, 3 * n)):
            a, b = r.randrange(n), r.randrange(n)
            if a != b:
                E.append((a, b))
        r.shuffle(E)
        return {"n": n, "s": [e[0] for e in E], "t": [e[1] for e in E]}
    k = draw(G.st.integers(0, 5))
    return G.graph(draw, 8, 1, 12, connected=conn, multi=k > 2, loops=k == 5)


def groups(regions, E):
    """{(i, j): edge indices joining regions i and j} for current region ids"""
    own = {}
    for i, vs in regions.items():
        for v in vs:
            own[v] = i
    out = {}
    for e, (a, b) in enumerate(E):
        x, y = own[a], own[b]
        if x != y:
            out.setdefault((min(x, y), max(x, y)), []).append(e)
    return out


def replay_merges(n, E, tree, alt, dist, tol, corrected=False):
    """checks each merge of the tree against distances recomputed from scratch"""
    p = tree.parents().tolist()
    req(len(p) == 2 * n - 1 and tree.num_leaves() == n, "not a binary tree over the vertices", len(p), n)
    r = T(p)
    regions = {i: frozenset([i]) for i in range(n)}
    raw = [0.0] * n
    for k in range(n, 2 * n - 1):
        ch = r.ch[k]
        req(len(ch) == 2, "node with", len(ch), "children")
        a, b = sorted(ch)
        gr = groups(regions, E)
        req((a, b) in gr, "merge of two regions which are not adjacent", sorted(regions[a]), sorted(regions[b]))
        d = {q: dist(regions[q[0]], regions[q[1]], es) for q, es in gr.items()}
        m = min(d.values())
        t = tol * max(1.0, abs(m))
        req(d[(a, b)] <= m + t, "merged pair is not a closest one", k, d[(a, b)], m)
        raw.append(d[(a, b)])
        x = d[(a, b)]
        if corrected:
            x = max([x] + [float(alt[c]) for c in ch if c >= n])
        req(abs(float(alt[k]) - x) <= tol * max(1.0, abs(x)), "altitude of node", k, alt[k], x)
        regions[k] = regions.pop(a) | regions.pop(b)
    req(len(alt) == 2 * n - 1 and np.all(np.asarray(alt)[:n] == 0), "leaf altitudes", alt)
    return raw


# ------------------------------------------------------------------ built-in linkages
def s_link(draw):
    g = bgraph(draw)
    m = len(g["s"])
    kind = G.choice(draw, ["complete", "average", "exponential"])
    w = G.weights(draw, m, dtypes=["float64", "float32", "int32", "uint8", "int64"], kinds=["ties", "small", "wide"])
    if kind == "exponential":
        w["v"] = [x / 32 if w["dtype"].startswith("f") else x // 16 for x in w["v"]]
    w2 = None
    if kind != "complete" and draw(G.st.booleans()):
        w2 = {"dtype": G.choice(draw, ["float64", w["dtype"]]), "v": [1 + x for x in G.seq(draw, m, 4)]}
    return {"g": g, "w": w, "kind": kind, "w2": w2,
            "alpha": G.choice(draw, [0.5, -0.5, 2.0, -1, 1, 0, float("inf"), float("-inf"), 0.1])}


def c_link(c, ctx):
    g, n = c["g"], c["g"]["n"]
    E = mat_edges(g)
    w = arr(c["w"])
    gr = mk_graph(g)
    w0, wl = w.copy(), [float(x) for x in w]
    if not len(E):
        return False
    kind = c["kind"]
    W2 = None if c["w2"] is None else arr(c["w2"])
    W2c = None if W2 is None else W2.copy()
    ww = [1.0] * len(E) if W2 is None else [float(x) for x in W2]
    f32 = w.dtype == np.float32
    tol = 2e-4 if f32 else 1e-9
    al = c["alpha"]
    if kind == "complete" or (kind == "exponential" and al == float("inf")):
        dist, tol = (lambda a, b, es: max(wl[e] for e in es)), 0
    elif kind == "exponential" and al == float("-inf"):
        dist, tol = (lambda a, b, es: min(wl[e] for e in es)), 0
    elif kind == "average" or al == 0:
        def dist(a, b, es):
            return sum(wl[e] * ww[e] for e in es) / sum(ww[e] for e in es)
    else:
        def dist(a, b, es):
            x = [ww[e] * np.exp(al * wl[e]) for e in es]
            return sum(u * wl[e] for u, e in zip(x, es)) / sum(x)
    if kind == "complete":
        t, a = hg.binary_partition_tree_complete_linkage(gr, w)
    elif kind == "average":
        t, a = hg.binary_partition_tree_average_linkage(gr, w, W2) if W2 is not None else hg.binary_partition_tree_average_linkage(gr, w)
    else:
        t, a = hg.binary_partition_tree_exponential_linkage(gr, w, al, W2)
    replay_merges(n, E, t, a, dist, tol)
    req(np.array_equal(w, w0) and (W2 is None or np.array_equal(W2, W2c)), "weights modified")
    s, tt = gr.edge_list()
    req(sorted(zip(s.tolist(), tt.tolist())) == sorted((min(e), max(e)) for e in E) and gr.num_vertices() == n, "graph modified")
    req(hg.CptHierarchy.get_leaf_graph(t).num_vertices() == n, "leaf graph")
    ctx.ev(kind + ("+w" if W2 is not None else ""))
    if len(set((min(e), max(e)) for e in E)) < len(E):
        ctx.ev("parallel or loop")
    return n > 3 and len(E) > n


# ------------------------------------------------------------------ ward
def s_ward(draw):
    g = bgraph(draw)
    k = G.integer(draw, 1, 3)
    return {"g": g, "x": G.weights(draw, g["n"], dtypes=["float64", "float32", "int32"], channels=k, kinds=["ties", "small", "wide"]),
            "sz": G.choice(draw, [None, 1]) and [1 + v for v in G.seq(draw, g["n"], 5)],
            "corr": G.choice(draw, ["max", "none", None])}


def c_ward(c, ctx):
    g, n = c["g"], c["g"]["n"]
    E = mat_edges(g)
    if not E:
        return False
    X = arr(c["x"])
    gr = mk_graph(g)
    X0 = X.copy()
    Xf = X.astype(np.float64)
    sz = c["sz"]
    s = np.ones(n) if sz is None else np.array(sz, dtype=np.float64)
    kw = {} if c["corr"] is None else {"altitude_correction": c["corr"]}
    if sz is not None:
        kw["vertex_sizes"] = s.copy()
    t, a = hg.binary_partition_tree_ward_linkage(gr, X, **kw)

    def dist(A, B, es):
        A, B = list(A), list(B)
        sa, sb = s[A].sum(), s[B].sum()
        ca = (Xf[A] * s[A][:, None]).sum(0) / sa
        cb = (Xf[B] * s[B][:, None]).sum(0) / sb
        return float(sa * sb / (sa + sb) * ((ca - cb) ** 2).sum())

    f32 = a.dtype == np.float32
    replay_merges(n, E, t, a, dist, 5e-4 if f32 else 1e-8, corrected=c["corr"] != "none")
    req(np.array_equal(X, X0), "centroids modified")
    if sz is not None:
        req(np.array_equal(kw["vertex_sizes"], s), "sizes modified")
    if c["corr"] != "none":
        p = t.parents()
        req(np.all(a[p] >= a), "altitudes decrease despite the max correction", a.tolist())
    ctx.ev(str(c["corr"]))
    return n > 3


# ------------------------------------------------------------------ user defined linkage
def s_custom(draw):
    g = bgraph(draw)
    m = len(g["s"])
    return {"g": g, "kind": G.choice(draw, ["max", "min", "sum", "hash", "hash", "mean", "const"]),
            "w": G.weights(draw, m, dtypes=["float64", "float32", "int32"], kinds=["ties", "small"]),
            "seed": G.integer(draw, 0, 1000)}


def c_custom(c, ctx):
    g, n = c["g"], c["g"]["n"]
    E = mat_edges(g)
    if not E:
        return False
    gr = mk_graph(g)
    w = arr(c["w"])
    w0 = w.copy()
    # between two vertices, the closest of the parallel edges is the fusion candidate
    W = {}
    init = {}
    for e, (a, b) in enumerate(E):
        if a != b:
            q = (min(a, b), max(a, b))
            init[q] = min(init.get(q, float("inf")), float(w[e]))
    kind = c["kind"]
    regions = {i: frozenset([i]) for i in range(n)}
    cur = dict(init)
    raw = [0.0] * n
    step = [n]

    def h(A, B):
        k = repr((c["seed"], sorted([sorted(A), sorted(B)])))
        return hashlib.md5(k.encode()).digest()[0] % 16 / 2.0

    def fn(graph, fe, new, r1, r2, nn):
        nn = list(nn)
        req(new == step[0], "index of the new region", new, step[0])
        step[0] += 1
        q = (min(r1, r2), max(r1, r2))
        req(q in cur, "merge of regions which are not adjacent or do not exist any more", r1, r2)
        req(cur[q] == min(cur.values()), "merge of a pair which is not a closest one", q, cur)
        raw.append(cur[q])
        neigh = {}
        for u in (r1, r2):
            for z in list(cur):
                if u in z and z != q:
                    o = z[0] if z[1] == u else z[1]
                    neigh.setdefault(o, []).append(cur[z])
        got = {}
        for x in nn:
            v = x.neighbour_vertex()
            req(v not in got, "neighbour listed twice", v)
            got[v] = x.num_edges()
        req(got == {k: len(v) for k, v in neigh.items()}, "neighbours of the new region", got, neigh)
        regions[new] = regions.pop(r1) | regions.pop(r2)
        for z in list(cur):
            if r1 in z or r2 in z:
                del cur[z]
        ids = set()
        for x in nn:
            v = x.neighbour_vertex()
            vals = neigh[v]
            i1 = x.first_edge_index()
            i2 = x.second_edge_index() if x.num_edges() > 1 else None
            req(i1 != i2, "same edge given twice")
            ni = x.new_edge_index()
            req(ni not in ids, "index of new edge used twice")
            ids.add(ni)
            # the indices must refer to the values set for them before
            vv = [float(W[i]) if i in W else float(w[i]) for i in ([i1] if i2 is None else [i1, i2])]
            req(sorted(vv) == sorted(vals), "edges of a neighbour", vv, vals)
            if kind == "max":
                d = max(vals)
            elif kind == "min":
                d = min(vals)
            elif kind == "sum":
                d = sum(vals)
            elif kind == "mean":
                d = sum(vals) / len(vals)
            elif kind == "const":
                d = 3.0
            else:
                d = h(regions[new], regions[v])
            d = float(np.float32(d))
            x.set_new_edge_weight(d)
            W[ni] = d
            cur[(v, new)] = d

    t, a = hg.binary_partition_tree(gr, fn, w)
    p = t.parents().tolist()
    # the callback is not called for the last fusion(s) when nothing remains to be weighted
    r = T(p)
    req(len(p) == 2 * n - 1 and r.nl == n, "binary tree")
    for k in range(n, 2 * n - 1):
        req(len(r.ch[k]) == 2, "binary")
        if k == step[0] and len(regions) == 2:
            q = tuple(sorted(r.ch[k]))
            req(q in cur, "last merge", q)
            raw.append(cur[q])
        elif k in regions:
            req(r.leaves_of[k] == regions[k], "region", k)
    req(len(raw) == 2 * n - 1 and [float(x) for x in a] == raw, "altitudes", a.tolist(), raw)
    req(np.array_equal(w, w0), "weights modified")
    s, tt = gr.edge_list()
    req(sorted(zip(s.tolist(), tt.tolist())) == sorted((min(e), max(e)) for e in E) and gr.num_vertices() == n, "graph modified")
    ctx.ev(kind)
    return n > 3 and len(E) > n


# ------------------------------------------------------------------ rejected inputs
def s_bad(draw):
    g = G.graph(draw, 7, 2, 6, connected=False, loops=draw(G.st.booleans()))
    return {"g": g, "k": G.choice(draw, ["complete", "average", "exponential", "ward", "custom"]), "short": draw(G.st.integers(0, 2))}


def c_bad(c, ctx):
    g, n = c["g"], c["g"]["n"]
    E = mat_edges(g)
    if not E:
        return False
    conn = len(set(components(n, E))) == 1
    m = len(E) + (c["short"] if conn else 0)
    bad = not conn or c["short"] > 0
    gr = mk_graph(g)
    w = np.arange(m, dtype=np.float64)
    k = c["k"]
    try:
        if k == "complete":
            hg.binary_partition_tree_complete_linkage(gr, w)
        elif k == "average":
            hg.binary_partition_tree_average_linkage(gr, w)
        elif k == "exponential":
            hg.binary_partition_tree_exponential_linkage(gr, w, 0.1)
        elif k == "ward":
            hg.binary_partition_tree_ward_linkage(gr, np.zeros((n + (c["short"] if conn else 0), 2)), np.ones(n + (c["short"] if conn else 0)))
        else:
            def fn(graph, fe, new, r1, r2, nn):
                for x in nn:
                    x.set_new_edge_weight(1.0)
            hg.binary_partition_tree(gr, fn, w)
        ok = True
    except Exception:
        ok = False
    req(ok != bad, "disconnected graph or mismatched sizes accepted" if ok else "valid input rejected", k)
    ctx.ev(("disconnected" if not conn else "size" if bad else "valid"))
    return bad


SUBTESTS = [
    Sub("linkages", s_link, c_link, 2500, rule="more than 3 vertices and at least one cycle", shard=300),
    Sub("ward", s_ward, c_ward, 1500, rule="more than 3 vertices", shard=200),
    Sub("custom", s_custom, c_custom, 1500, rule="more than 3 vertices and at least one cycle", shard=200),
    Sub("rejected", s_bad, c_bad, 500, rule="the input must be rejected", shard=125),
]
