"""P09: min and max trees are the trees of level-set components."""
import numpy as np
import higra as hg
from vlib.core import Sub, req
from vlib import gen as G
from vlib.ref import T, arr, mat_edges, UF
from vlib.hgc import mk_graph


def extremes(draw, w):
    if draw(G.st.integers(0, 4)) == 0:
        d = np.dtype(w["dtype"])
        if w["dtype"].startswith("float"):
            pal = [0.0, -1.0, float("inf"), float("-inf"), float(np.finfo(d).max), float(np.finfo(d).min), 1e-30, 1.0]
        else:
            i = np.iinfo(d)
            pal = [int(i.max), int(i.min), int(i.max) - 1, 0, 1, int(i.min) + 1]
        w = dict(w)
        w["v"] = [pal[int(abs(x) * 2) % len(pal)] for x in w["v"]]
    return w


def big(draw):
    import random
    r = random.Random(G.seed32(draw))
    n = r.randint(10, 120)
    E = [(i, r.randrange(max(0, i - r.choice([1, 3, 200])), i)) for i in range(1, n)]
    E += [(r.randrange(n), r.randrange(n)) for _ in range(r.randint(0, n))]
    r.shuffle(E)
    return {"n": n, "s": [e[0] for e in E], "t": [e[1] for e in E]}


def grid_edges(sh, conn):
    h, w = sh
    E = []
    for i in range(h):
        for j in range(w):
            for a, b in ((0, 1), (1, 0)) + (((1, 1), (1, -1)) if conn == 8 else ()):
                if 0 <= i + a < h and 0 <= j + b < w:
                    E.append((i * w + j, (i + a) * w + j + b))
    return E


def s_graph(draw):
    g = big(draw) if draw(G.st.integers(0, 9)) == 0 else G.graph(draw, 10, 1, 10, loops=draw(G.st.booleans()))
    w = extremes(draw, G.weights(draw, g["n"], kinds=["ties", "ties", "small", "wide"]))
    return {"g": g, "w": w, "max": draw(G.st.booleans())}


def s_image(draw):
    sh = [G.integer(draw, 1, G.sz(5, 2)), G.integer(draw, 1, G.sz(5, 2))]
    w = extremes(draw, G.weights(draw, sh[0] * sh[1], kinds=["ties", "ties", "small", "wide"], layout=False))
    return {"sh": sh, "conn": G.choice(draw, [4, 8]), "w": w, "max": draw(G.st.booleans()),
            "lay": draw(G.st.integers(0, 3)), "impl": draw(G.st.booleans())}


def s_nd(draw):
    d = G.integer(draw, 1, 4)
    sh = [G.integer(draw, 1, {1: 9, 2: 4, 3: 3, 4: 3}[d] if G.SCALE == 1 else G.sz(3, d)) for _ in range(d)]
    n = int(np.prod(sh))
    if n > 40:
        sh[0] = 1
        n = int(np.prod(sh))
    w = extremes(draw, G.weights(draw, n, kinds=["ties", "small"], layout=False))
    nb = []
    for _ in range(G.integer(draw, 1, 3)):
        o = [G.integer(draw, -1, 1) for _ in range(d)]
        if any(o) and o not in nb:
            nb += [o, [-x for x in o]]
    for k in range(d):
        o = [0] * d
        o[k] = 1
        if o not in nb:
            nb += [o, [-x for x in o]]
    return {"sh": sh, "nb": nb, "w": w, "max": draw(G.st.booleans()), "kind": G.choice(draw, ["bool", "array", "array"])}


def level_components(n, E, w, maxtree):
    """{region: altitude}"""
    out = {}
    for lv in sorted(set(w)):
        keep = [v for v in range(n) if (w[v] >= lv if maxtree else w[v] <= lv)]
        ks = set(keep)
        u = UF(n)
        for a, b in E:
            if a in ks and b in ks:
                u.union(a, b)
        comp = {}
        for v in keep:
            comp.setdefault(u.find(v), []).append(v)
        for x in comp.values():
            vals = [w[v] for v in x]
            out[frozenset(x)] = min(vals) if maxtree else max(vals)
    return out


def verify(t, a, n, E, wl, dtype, mx):
    p = t.parents().tolist()
    r = T(p)
    req(t.num_leaves() == n and r.nl == n, "leaves", r.nl, n)
    req(t.category() == hg.TreeCategory.ComponentTree, "category")
    al = a.tolist()
    req(len(al) == len(p) and a.dtype == dtype, "altitudes", len(al), len(p), a.dtype)
    req(al[:n] == wl, "leaf altitudes", al[:n], wl)
    exp = level_components(n, E, wl, mx)
    got = {}
    for i in range(n, len(p)):
        req(r.leaves_of[i] not in got, "component appears twice", sorted(r.leaves_of[i]))
        got[r.leaves_of[i]] = al[i]
        if p[i] != i:
            req(al[p[i]] < al[i] if mx else al[p[i]] > al[i], "altitudes not strictly ordered", i)
    req(got == exp, "components", {tuple(sorted(k)): v for k, v in got.items()}, {tuple(sorted(k)): v for k, v in exp.items()})
    for v in range(n):
        req(p[v] != v and al[p[v]] == wl[v], "leaf", v, "does not hang under a component of its own value")
    # inclusion: with all regions distinct and laminar, the parent must be the smallest strict superset
    for i in range(n, len(p)):
        if p[i] != i:
            req(r.leaves_of[i] < r.leaves_of[p[i]], "inclusion")
    req(np.array_equal(hg.reconstruct_leaf_data(t, a), np.array(wl, dtype=dtype)), "reconstruction from altitudes")


def c_graph(c, ctx):
    g, n = c["g"], c["g"]["n"]
    E = mat_edges(g)
    w = arr(c["w"])
    wl, w0 = w.tolist(), w.copy()
    gr = mk_graph(g)
    mx = c["max"]
    t, a = (hg.component_tree_max_tree if mx else hg.component_tree_min_tree)(gr, w)
    req(hg.CptHierarchy.get_leaf_graph(t).num_vertices() == n, "leaf graph")
    verify(t, a, n, E, wl, w.dtype, mx)
    # the other tree on the reversed ranks has the same nodes
    ranks = {v: i for i, v in enumerate(sorted(set(wl)))}
    rv = np.array([-ranks[x] for x in wl], dtype=np.int64)
    t2, a2 = (hg.component_tree_min_tree if mx else hg.component_tree_max_tree)(gr, rv)
    req(sorted(map(sorted, T(t2.parents().tolist()).leaves_of[n:])) == sorted(map(sorted, T(t.parents().tolist()).leaves_of[n:])),
        "duality between min and max trees")
    req(np.array_equal(w, w0), "weights modified")
    ctx.ev("max" if mx else "min")
    ctx.ev(c["w"]["dtype"])
    return n > 3 and len(set(wl)) < n


def c_image(c, ctx):
    sh = tuple(c["sh"])
    w = np.array(c["w"]["v"], dtype=c["w"]["dtype"]).reshape(sh)
    wl = w.ravel().tolist()
    if c["lay"] == 1:
        w = np.asfortranarray(w)
    elif c["lay"] == 2:
        b = np.zeros((sh[0] * 2, sh[1] * 3), w.dtype)
        b[::2, 1::3] = w
        w = b[::2, 1::3]
    if c["impl"]:
        gr = hg.get_4_adjacency_implicit_graph(sh) if c["conn"] == 4 else hg.get_8_adjacency_implicit_graph(sh)
    else:
        gr = hg.get_4_adjacency_graph(sh) if c["conn"] == 4 else hg.get_8_adjacency_graph(sh)
    mx = c["max"]
    t, a = (hg.component_tree_max_tree if mx else hg.component_tree_min_tree)(gr, w)
    n = len(wl)
    p = t.parents().tolist()
    r = T(p)
    exp = level_components(n, grid_edges(sh, c["conn"]), wl, mx)
    got = {r.leaves_of[i]: a[i] for i in range(n, len(p))}
    req(len(got) == len(p) - n and got == exp, "components of the image", len(got), len(exp))
    rec = hg.reconstruct_leaf_data(t, a)
    req(rec.shape == sh and np.array_equal(rec, np.array(wl, dtype=w.dtype).reshape(sh)), "reconstruction", rec.tolist())
    ctx.ev("%d-adjacency" % c["conn"])
    return n > 4 and len(set(wl)) < n


def c_nd(c, ctx):
    sh = c["sh"]
    d = len(sh)
    n = int(np.prod(sh))
    w = np.array(c["w"]["v"], dtype=c["w"]["dtype"])
    if c["kind"] == "bool":
        w = w > 1
    gr = getattr(hg, "RegularGraph%dd" % d)(getattr(hg, "EmbeddingGrid%dd" % d)(sh), np.array(c["nb"], dtype=np.int64))
    mx = c["max"]
    t, a = (hg.component_tree_max_tree if mx else hg.component_tree_min_tree)(gr, w)
    E = []
    for i, x in enumerate(np.ndindex(*sh)):
        for o in c["nb"]:
            y = [u + v for u, v in zip(x, o)]
            if all(0 <= u < m for u, m in zip(y, sh)):
                E.append((i, int(np.ravel_multi_index(y, sh))))
    wl = [x + 0 for x in w.tolist()]
    r = T(t.parents().tolist())
    exp = level_components(n, E, wl, mx)
    got = {r.leaves_of[i]: a[i] for i in range(n, r.n)}
    req(len(got) == r.n - n and got == exp, "components on an implicit grid graph", got, exp)
    req(a[:n].tolist() == wl, "leaf altitudes")
    ctx.ev("%dd %s" % (d, c["kind"]))
    return n > 4 and len(set(wl)) > 1


SUBTESTS = [
    Sub("graphs", s_graph, c_graph, 3500, rule="more than 3 vertices and tied values", shard=440),
    Sub("images", s_image, c_image, 2500, rule="more than 4 pixels and tied values", shard=320),
    Sub("implicit_grids", s_nd, c_nd, 1500, rule="more than 4 vertices and 2 distinct values", shard=200),
]
