"""P15: region adjacency graphs, back projection, accumulation, fine to coarse projection."""
import numpy as np
import higra as hg
from vlib.core import Sub, req, Skip
from vlib import gen as G
from vlib.ref import arr, mat_edges, components, same_partition
from vlib.hgc import mk_graph
from props.p05 import ACC, wdata, mkarr
from props.p06 import check as check_acc, acc_fn


def base(draw):
    """a base graph, possibly an image graph"""
    if draw(G.st.integers(0, 3)) == 0:
        h, w = G.integer(draw, 1, G.sz(5, 2)), G.integer(draw, 1, G.sz(6, 2))
        return {"kind": "grid", "sh": [h, w], "n": h * w, "adj": G.choice(draw, [4, 8])}
    g = G.graph(draw, 12, G.choice(draw, [1, 5]), 14, connected=draw(G.st.booleans()), loops=draw(G.st.integers(0, 3)) == 0)
    g["kind"] = "graph"
    return g


def mk_base(g):
    if g["kind"] == "grid":
        gr = hg.get_4_adjacency_graph(g["sh"]) if g["adj"] == 4 else hg.get_8_adjacency_graph(g["sh"])
        s, t = gr.edge_list()
        return gr, list(zip(s.tolist(), t.tolist()))
    return mk_graph(g), mat_edges(g)


def check_rag(rag, gr, E, comp, what):
    """rag against the partition comp (one representative per vertex); returns (vertex_map, edge_map)"""
    n = len(comp)
    d = hg.CptRegionAdjacencyGraph.construct(rag)
    vm, em = np.asarray(d["vertex_map"]), np.asarray(d["edge_map"])
    req(d["pre_graph"] is gr, what, "pre graph")
    req(vm.shape == (n,) and em.shape == (len(E),), what, "map sizes", vm.shape, em.shape)
    nr = len(set(comp))
    req(rag.num_vertices() == nr, what, "number of regions", rag.num_vertices(), nr)
    req(same_partition(vm.tolist(), comp), what, "vertex map", vm.tolist(), "partition", comp)
    req(n == 0 or (vm.min() >= 0 and vm.max() < nr), what, "vertex map range", vm.tolist())
    pairs = {tuple(sorted((int(vm[a]), int(vm[b])))) for a, b in E if vm[a] != vm[b]}
    s, t = rag.edge_list()
    re = [tuple(sorted(x)) for x in zip(s.tolist(), t.tolist())]
    req(sorted(re) == sorted(pairs), what, "edges", sorted(re), "expected", sorted(pairs))
    for k, (a, b) in enumerate(E):
        if vm[a] == vm[b]:
            req(em[k] == -1, what, "edge", k, "inside a region mapped on", em[k])
        else:
            req(0 <= em[k] < len(re), what, "edge", k, "mapped on", em[k])
            req(re[em[k]] == tuple(sorted((int(vm[a]), int(vm[b])))), what, "edge", k, "mapped on", re[em[k]])
    return vm.tolist(), em.tolist()


def extras(draw, g, acc_dt=True):
    ch = G.choice(draw, [None, None, 1, 3, "2x2"])
    if ch == 1 and g.get("sh", [0, 0])[1] == 1:
        ch = None  # (documented ambiguity between the channels and the image shape)
    return {"wv": {"dtype": G.choice(draw, G.ALL_DTYPES), "seed": G.seq(draw, 12, 200), "ch": ch},
            "acc": G.choice(draw, ACC), "nd": draw(G.st.booleans())}


def fill(w, n):
    k = {None: 1, "2x2": 4}.get(w["ch"], w["ch"] or 1)
    v = [(w["seed"][i % 12] + 7 * (i // 12)) % 100 for i in range(n * k)]
    a = np.array(v).astype(w["dtype"])
    if w["ch"] is None:
        return a
    return a.reshape((-1, 2, 2)) if w["ch"] == "2x2" else a.reshape((-1, w["ch"]))


def check_ops(c, rag, gr, E, vm, em, ctx):
    n = len(vm)
    # back projections
    wr = fill(c["x"]["wv"], rag.num_vertices())
    b = hg.rag_back_project_vertex_weights(rag, wr)
    exp = wr[np.array(vm)]
    if c["g"]["kind"] == "grid":
        sh = tuple(hg.CptGridGraph.get_shape(gr))
        if exp.shape[:2] != sh:  # (documented ambiguity: already of the shape of the image)
            exp = exp.reshape(sh + wr.shape[1:])
    req(b.shape == exp.shape and np.array_equal(b, exp), "back projected vertex weights", b.tolist(), exp.tolist())
    req(b.dtype == wr.dtype, "type of back projected vertex weights", b.dtype, wr.dtype)
    ne = rag.num_edges()
    we = fill(c["x"]["wv"], ne) + np.array(1).astype(wr.dtype)
    b = acc_fn(hg.rag_back_project_edge_weights, we, rag, we)
    exp = np.zeros((len(em),) + we.shape[1:], dtype=we.dtype)
    for i, x in enumerate(em):
        if x >= 0:
            exp[i] = we[x]
    req(b.shape == exp.shape and np.array_equal(b, exp), "back projected edge weights", b.tolist(), exp.tolist())
    req(b.dtype == we.dtype, "type of back projected edge weights", b.dtype, we.dtype)
    # accumulations
    acc = c["x"]["acc"]
    for onv in (True, False):
        m = vm if onv else em
        w = fill(c["x"]["wv"], len(m))
        if acc == "prod":
            w = np.minimum(w, np.array(3).astype(w.dtype))
        if acc == "sum" and w.dtype.itemsize == 1:
            w = np.minimum(w, np.array(5).astype(w.dtype))
        a = w
        if onv and c["g"]["kind"] == "grid" and c["x"]["nd"]:
            a = w.reshape(tuple(hg.CptGridGraph.get_shape(gr)) + w.shape[1:])
        f = hg.rag_accumulate_on_vertices if onv else hg.rag_accumulate_on_edges
        nm = "vertex_weights" if onv else "edge_weights"
        got = acc_fn(lambda: f(rag, getattr(hg.Accumulators, acc), **{nm: a}), w)
        lists = [[j for j, x in enumerate(m) if x == i] for i in range(max([-1] + m) + 1)]
        check_acc(got, lists, acc, w, "rag_accumulate_on_%s %s" % (nm, acc), True, c)
    ctx.ev(acc)


def s_lab(draw):
    g = base(draw)
    dt = G.choice(draw, G.INT_DTYPES)
    off = 0 if dt.startswith("uint") else G.choice(draw, [0, 0, -1, -3])
    l = {"dtype": dt, "v": [x + off for x in G.seq(draw, g["n"], G.choice(draw, [1, 2, 2, 3, 3, 5, 20]))]}
    if draw(G.st.integers(0, 7)) == 0:
        i = np.iinfo(dt)
        l["v"] = [int(i.max) if x % 2 else int(i.min) for x in l["v"]]
    if draw(G.st.integers(0, 5)) == 5:
        l["layout"] = G.integer(draw, 1, 2)
    return {"g": g, "l": l, "x": extras(draw, g)}


def c_lab(c, ctx):
    gr, E = mk_base(c["g"])
    v = c["l"]["v"]
    n = c["g"]["n"]
    lab = arr(c["l"])
    if c["g"]["kind"] == "grid" and c["x"]["nd"]:
        lab = lab.reshape(c["g"]["sh"])
    l0 = lab.copy()
    rag = hg.make_region_adjacency_graph_from_labelisation(gr, lab)
    req(np.array_equal(lab, l0), "labels modified")
    comp = components(n, [(a, b) for a, b in E if v[a] == v[b]])
    vm, em = check_rag(rag, gr, E, comp, "labelisation")
    check_ops(c, rag, gr, E, vm, em, ctx)
    # quotient of a quotient
    if rag.num_vertices() > 1:
        l2 = [x % 2 for x in range(rag.num_vertices())]
        rag2 = hg.make_region_adjacency_graph_from_labelisation(rag, np.array(l2))
        s, t = rag.edge_list()
        E2 = list(zip(s.tolist(), t.tolist()))
        check_rag(rag2, rag, E2, components(len(l2), [(a, b) for a, b in E2 if l2[a] == l2[b]]), "second level")
    nr = len(set(vm))
    return 1 < nr < n and rag.num_edges() > 0


def s_cut(draw):
    g = base(draw)
    if g["kind"] == "grid":
        h, w = g["sh"]
        m = h * (w - 1) + w * (h - 1) + (2 * (h - 1) * (w - 1) if g["adj"] == 8 else 0)
    else:
        m = len(g["s"])
    w = {"dtype": G.choice(draw, G.ALL_DTYPES), "v": [max(0, x - 1) for x in G.seq(draw, m, G.choice(draw, [3, 4, 5]))]}
    if not w["dtype"].startswith("uint") and draw(G.st.booleans()):
        w["v"] = [-x if i % 2 else x for i, x in enumerate(w["v"])]
    if w["dtype"].startswith("float"):
        w["v"] = [x * G_SC[draw_k % len(G_SC)] for draw_k, x in enumerate(w["v"])]
    if draw(G.st.integers(0, 5)) == 5:
        w["layout"] = G.integer(draw, 1, 2)
    return {"g": g, "w": w, "x": extras(draw, g)}


G_SC = [1.0, 0.25, 1e-30, 0.01]


def c_cut(c, ctx):
    gr, E = mk_base(c["g"])
    w = arr(c["w"])
    w0 = w.copy()
    req(len(E) == w.size, "edge count", len(E), w.size)
    rag = acc_fn(hg.make_region_adjacency_graph_from_graph_cut, w, gr, w)
    req(np.array_equal(w, w0), "weights modified")
    comp = components(c["g"]["n"], [e for e, x in zip(E, w0.tolist()) if x == 0])
    vm, em = check_rag(rag, gr, E, comp, "graph cut")
    check_ops(c, rag, gr, E, vm, em, ctx)
    if any(x != 0 and vm[a] == vm[b] for (a, b), x in zip(E, w0.tolist())):
        ctx.ev("non-null edge inside a region")
    return 1 < len(set(vm)) < len(vm) and rag.num_edges() > 0


# ------------------------------------------------------------------ projection of labels
def s_proj(draw):
    n = G.integer(draw, 1, G.sz(40))
    kf, kc = G.integer(draw, 1, G.sz(8)), G.integer(draw, 1, G.sz(6))
    f, co = G.seq(draw, n, kf), G.seq(draw, n, kc)
    return {"f": f, "c": co, "df": G.choice(draw, G.INT_DTYPES), "dc": G.choice(draw, G.INT_DTYPES),
            "mode": draw(G.st.integers(0, 2)), "bad": [draw(G.st.integers(0, 3)), G.integer(draw, 0, 12)], "E": G.graph(draw, n, n, 10)}


def dense(l):
    r = {}
    return [r.setdefault(x, len(r)) for x in l]


def check_projection(got, f, co, what):
    k = max(f) + 1
    req(len(got) == k, what, "size", len(got), k)
    for i in range(k):
        cnt = {}
        for a, b in zip(f, co):
            if a == i:
                cnt[b] = cnt.get(b, 0) + 1
        if cnt:
            req(cnt.get(int(got[i]), 0) == max(cnt.values()), what, "fine label", i, "projected on", int(got[i]), cnt)


def c_proj(c, ctx):
    f, co = dense(c["f"]), dense(c["c"])
    a = np.array(f, dtype=c["df"])
    b = np.array(co, dtype=c["dc"])
    if c["mode"] == 0:
        got = hg.project_fine_to_coarse_labelisation(a, b)
    elif c["mode"] == 1:
        got = hg.project_fine_to_coarse_labelisation(a, b, max(f) + 1, max(co) + 1)
    else:
        got = hg.project_fine_to_coarse_labelisation(a, b, num_regions_coarse=max(co) + 1)
    check_projection(np.asarray(got).tolist(), f, co, "labels")
    # labels out of range
    k, i = c.get("bad", [0, 0])
    x = np.array([f, co], dtype=np.int64)
    kf, kc = max(f) + 1, max(co) + 1
    if k == 1:
        x[i % 2, i % len(f)] = -1 - i // 2
        args = (x[0], x[1], kf, kc)
    elif k == 2:
        args = (x[0], x[1], kf + (i % 2) - 1, kc - (i % 2)) if min(kf, kc) > 1 else None
    elif k == 3:
        x[i % 2, i % len(f)] = (kf, kc)[i % 2] + i // 2
        args = (x[0], x[1], kf, kc)
    else:
        args = None
    if args is not None:
        try:
            hg.project_fine_to_coarse_labelisation(*args)
        except Exception:
            ctx.ev("labels out of range rejected")
        else:
            req(False, "labels out of range accepted", [y if isinstance(y, int) else y.tolist() for y in args])
    g = c["E"]
    gr = mk_graph(g)
    r1 = hg.make_region_adjacency_graph_from_labelisation(gr, a.astype(np.int64))
    r2 = hg.make_region_adjacency_graph_from_labelisation(gr, b.astype(np.int64))
    got = hg.project_fine_to_coarse_rag(r1, r2)
    m1 = np.asarray(hg.CptRegionAdjacencyGraph.get_vertex_map(r1)).tolist()
    m2 = np.asarray(hg.CptRegionAdjacencyGraph.get_vertex_map(r2)).tolist()
    check_projection(np.asarray(got).tolist(), m1, m2, "rags")
    return len(set(f)) > 1 and len(set(co)) > 1


SUBTESTS = [
    Sub("labels", s_lab, c_lab, 2500, rule="several regions, one of them with several vertices, some adjacent", shard=200),
    Sub("cut", s_cut, c_cut, 2500, rule="several regions, one of them with several vertices, some adjacent", shard=200),
    Sub("projection", s_proj, c_proj, 2000, rule="several fine and coarse regions", shard=300),
]
