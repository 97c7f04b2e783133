"""P19: alignment of hierarchies, fusion of trees."""
import itertools
import numpy as np
import higra as hg
from vlib.core import Sub, req, Skip
from vlib import gen as G
from vlib.ref import T, arr, mat_edges, components, minimax
from vlib.hgc import mk_tree, mk_graph
from props.p15 import base, mk_base

ADT = ["float64", "float64", "int32", "uint8", "int64", "float32", "uint16", "int8"]


# ------------------------------------------------------------------ alignment
def cbase(draw):
    """connected base graph"""
    if draw(G.st.integers(0, 2)) == 0:
        h, w = G.integer(draw, 1, G.sz(4, 2)), G.integer(draw, 1, G.sz(5, 2))
        if h * w == 1:
            w = 2
        return {"kind": "grid", "sh": [h, w], "n": h * w, "adj": G.choice(draw, [4, 8])}
    g = G.graph(draw, 11, 2, 9)
    g["kind"] = "graph"
    return g


def hier(draw, n):
    """description of a hierarchy on the n vertices of the graph"""
    k = G.choice(draw, ["tree", "tree", "sal", "sv", "ragtree", "ragsal", "gtree"])
    d = {"k": k, "dt": G.choice(draw, ADT), "w": G.seq(draw, 40, G.choice(draw, [3, 3, 6])), "lab": G.seq(draw, n, G.choice(draw, [2, 3, 5]))}
    if k == "tree":
        b = G.seq(draw, 3 * n + 6, 9)
        p = G.parents_from(n, G.integer(draw, 1, n), b, unary=draw(G.st.booleans()))
        d["p"] = p
    elif k == "sv":
        q = G.tree(draw, 5, 5)
        d["p"] = q
        d["lab"] = G.seq(draw, n, G.num_leaves(q))
    d["inc"] = G.seq(draw, 60, 3)
    if k == "sal":
        d["other"] = draw(G.st.booleans())
    return d


def altitudes_of(p, inc, zero_leaves=True, strict=False):
    nl = G.num_leaves(p)
    al, low = [0] * len(p), [0] * len(p)
    for i in range(len(p)):
        x = inc[i % len(inc)]
        if i < nl:
            al[i] = 0 if zero_leaves else x
        else:
            al[i] = low[i] + x
        if p[i] != i:
            low[p[i]] = max(low[p[i]], al[i])
    return al


def s_align(draw):
    g = cbase(draw)
    n = g["n"]
    return {"g": g, "fine": G.choice(draw, ["cut", "lab", "hier"]), "fl": G.seq(draw, n, G.choice(draw, [2, 3, 5])),
            "fw": G.seq(draw, 60, 3), "fdt": G.choice(draw, ADT), "spread": G.choice(draw, [1, 1, 3]),
            "hs": [hier(draw, n) for _ in range(G.integer(draw, 1, 3))]}


def world_of(h, gr, E, n):
    """(arguments, coarse label of every vertex, level of the meeting of two coarse labels)"""
    k = h["k"]
    dt = h["dt"]

    def tree_world(p, al, lab):
        r = T(p)
        return lab, (lambda a, b: al[r.lca(a, b)])

    if k in ("tree", "gtree"):
        if k == "tree":
            p = h["p"]
            al = altitudes_of(p, h["inc"])
            t = mk_tree(p)
            a = np.array(al).astype(dt)
        else:
            w = np.array([h["w"][i % 40] for i in range(len(E))]).astype(dt)
            t, a = hg.quasi_flat_zone_hierarchy(gr, w)
            p = t.parents().tolist()
            al = a.tolist()
        r = T(p)
        # supervertices: the largest regions of altitude 0
        sv = []
        for v in range(r.nl):
            x = v
            while p[x] != x and al[p[x]] == 0:
                x = p[x]
            sv.append(x)
        lab, lev = tree_world(p, al, sv)
        return (t, a), lab, lambda x, y: 0 if x == y else lev(x, y)
    if k == "sv":
        p = h["p"]
        al = altitudes_of(p, h["inc"], zero_leaves=False)
        lab, lev = tree_world(p, al, h["lab"])
        return (np.array(h["lab"]), mk_tree(p), np.array(al).astype(dt)), lab, lev
    if k == "sal":
        if h["other"]:  # a hierarchy given on another graph over the same vertices
            E = [(i, (i + 1) % n) for i in range(n)] if n > 2 else [(0, 1)]
            g2 = hg.UndirectedGraph(n)
            g2.add_edges(np.array([e[0] for e in E]), np.array([e[1] for e in E]))
            gr = g2
        w = [h["w"][i % 40] for i in range(len(E))]
        mm = minimax(n, E, w)
        sal = [mm[a][b] if a != b else 0 for a, b in E]
        comp = components(n, [E[i] for i in range(len(E)) if sal[i] == 0])
        return (gr, np.array(sal).astype(dt)), comp, lambda x, y: 0 if x == y else mm[x][y]
    # hierarchies on a rag of the graph
    comp = components(n, [e for e in E if h["lab"][e[0]] == h["lab"][e[1]]])
    ids = {x: i for i, x in enumerate(dict.fromkeys(comp))}
    rag = hg.make_region_adjacency_graph_from_labelisation(gr, np.array([ids[x] for x in comp], dtype=np.int64))
    vm = np.asarray(hg.CptRegionAdjacencyGraph.get_vertex_map(rag)).tolist()
    nr = rag.num_vertices()
    s, t = rag.edge_list()
    RE = list(zip(s.tolist(), t.tolist()))
    w = [1 + h["w"][i % 40] for i in range(len(RE))]
    if not RE:
        raise Skip()
    mm = minimax(nr, RE, w)
    lev = lambda x, y: 0 if x == y else mm[x][y]
    if k == "ragsal":
        return (rag, np.array([mm[a][b] for a, b in RE]).astype(dt)), vm, lev
    tt, aa = hg.quasi_flat_zone_hierarchy(rag, np.array(w).astype(dt))
    return (tt, aa), vm, lev


def expect_ok(got, E, fine, lab, lev, what, ctx):
    """got must be the projection, for one choice of the coarse region of every fine region"""
    regs = list(dict.fromkeys(fine))
    cand = {}
    for f in regs:
        cnt = {}
        for v in range(len(fine)):
            if fine[v] == f:
                cnt[lab[v]] = cnt.get(lab[v], 0) + 1
        m = max(cnt.values())
        cand[f] = [x for x in sorted(cnt) if cnt[x] == m]
    ties = 1
    for f in regs:
        ties *= len(cand[f])
    for i, (a, b) in enumerate(E):
        if fine[a] == fine[b]:
            req(got[i] == 0, what, "edge", i, (a, b), "inside a fine region has value", got[i])
        else:
            ok = {lev(x, y) for x in cand[fine[a]] for y in cand[fine[b]]}
            req(got[i] in ok, what, "edge", i, (a, b), "has value", got[i], "expected", sorted(ok))
    if 1 < ties <= 64:
        ctx.ev("tied projections")
        for ch in itertools.product(*[cand[f] for f in regs]):
            d = dict(zip(regs, ch))
            if all(fine[a] == fine[b] or got[i] == lev(d[fine[a]], d[fine[b]]) for i, (a, b) in enumerate(E)):
                return
        req(False, what, "no projection of the fine regions gives", list(got))


def c_align(c, ctx):
    gr, E = mk_base(c["g"])
    n = c["g"]["n"]
    if not E:
        raise Skip()
    fl = c["fl"]
    # the fine partition
    fine = components(n, [e for e in E if fl[e[0]] == fl[e[1]]])
    kind = c["fine"]
    labels = None
    if kind == "cut":
        # (an edge inside a fine region may be cut as well: regions are the components of the null edges)
        w = [0 if fl[a] == fl[b] and c["fw"][i % 60] else 1 + c["fw"][i % 60] for i, (a, b) in enumerate(E)]
        fine = components(n, [E[i] for i in range(len(E)) if w[i] == 0])
        al = hg.HierarchyAligner.from_graph_cut(gr, np.array(w).astype(c["fdt"]))
    elif kind == "lab":
        ids = {x: c["spread"] * i + 1 for i, x in enumerate(dict.fromkeys(fine))}
        labels = np.array([ids[x] for x in fine]).astype("int64" if c["fdt"].startswith("float") else c["fdt"])
        al = hg.HierarchyAligner.from_labelisation(gr, labels)
    else:
        w = np.array([c["fw"][i % 60] for i in range(len(E))]).astype(c["fdt"])
        t, a = hg.quasi_flat_zone_hierarchy(gr, w)
        fine = components(n, [E[i] for i in range(len(E)) if w[i] == 0])
        al = hg.HierarchyAligner.from_hierarchy(gr, t, a)
        self_sal = al.align_hierarchy(t, a)
        mm = minimax(n, E, w.tolist())
        exp = [0 if x == y else mm[x][y] for x, y in E]
        req(np.asarray(self_sal).tolist() == exp, "hierarchy aligned on itself", self_sal.tolist(), exp)
        sal = hg.saliency(t, a)
        req(np.array_equal(al.align_hierarchy(gr, sal), sal), "saliency aligned on itself")
    hs = []
    nreg = len(set(fine))
    for h in c["hs"]:
        args, lab, lev = world_of(h, gr, E, n)
        if h["k"] in ("ragtree", "ragsal"):
            if h["k"] == "ragtree":
                got = al.align_hierarchy(np.array(lab), *args)
            else:
                b, ba = hg.bpt_canonical(*args)
                got = al.align_hierarchy(np.array(lab), b, ba)
        else:
            got = al.align_hierarchy(*args)
        req(got.shape == (len(E),), "shape", got.shape)
        expect_ok(got.tolist(), E, fine, lab, lev, "alignment of a %s on a %s:" % (h["k"], kind), ctx)
        ctx.ev("coarse " + h["k"])
        if h["k"] != "sv":
            hs.append((args, lab, lev, h["k"]))
    if kind == "lab" and hs:
        l = [x[0] for x in hs]
        for form in ([l] if len(l) > 1 else [l, l[0]]):
            res = hg.align_hierarchies(gr, labels, form)
            if form is l:
                req(len(res) == len(l), "number of results", len(res))
            else:
                res = [res]
            for rr, (args, lab, lev, k) in zip(res, hs):
                expect_ok(np.asarray(rr).tolist(), E, fine, lab, lev, "align_hierarchies of a %s:" % k, ctx)
    return nreg > 1 and len({x for h in hs for x in h[1]}) > 1


# ------------------------------------------------------------------ fusion
def s_fusion(draw):
    n = G.integer(draw, 1, G.sz(G.choice(draw, [4, 9, 14])))
    ts = []
    for _ in range(G.integer(draw, 2, 4)):
        if n == 1:
            ts.append([0])
        else:
            ts.append(G.parents_from(n, G.integer(draw, 1, n), G.seq(draw, 4 * n + 4, 11), unary=False,
                                     binary=draw(G.st.integers(0, 4)) == 0))
    if draw(G.st.integers(0, 3)) == 0:
        ts.append(list(ts[0]))
    return {"ts": ts, "near": draw(G.st.booleans()), "bad": draw(G.st.integers(0, 9)) == 0}


def c_fusion(c, ctx):
    ts = c["ts"]
    n = G.num_leaves(ts[0])
    trees = [mk_tree(p) for p in ts]
    got = hg.tree_fusion_depth_map(*trees)
    shapes = set()
    for p in ts:
        r = T(p)
        for i in range(r.n):
            shapes.add(frozenset(r.leaves_of[i]))
    if n > 1:
        depth = {}
        for s in sorted(shapes, key=lambda s: -len(s)):
            depth[s] = max([depth[x] + 1 for x in depth if s < x], default=0)
        exp = [depth[frozenset([i])] for i in range(n)]
    else:
        exp = [0]
    req(np.asarray(got).tolist() == exp, "fusion depth map", np.asarray(got).tolist(), "expected", exp)
    perm = hg.tree_fusion_depth_map(*trees[::-1])
    req(np.array_equal(perm, got), "fusion depth map in the other order", perm.tolist(), exp)
    if c["bad"]:
        for args in ((), (trees[0],), (trees[0], mk_tree([n + 1] * (n + 2)))):
            try:
                res = hg.tree_fusion_depth_map(*args)
            except Exception:
                continue
            req(False, "fusion of", len(args), "incompatible trees gives", res)
    return n > 2 and len(shapes) > max(len(p) for p in ts)


SUBTESTS = [
    Sub("align", s_align, c_align, 3200, rule="at least two fine regions and two coarse regions", shard=200),
    Sub("fusion", s_fusion, c_fusion, 3000, rule="at least three leaves and trees that differ", shard=250),
]
