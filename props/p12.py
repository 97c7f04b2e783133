"""P12: (alpha, omega) and strongly constrained connectivity hierarchies."""
import numpy as np
import higra as hg
from vlib.core import Sub, req
from vlib import gen as G
from vlib.ref import T, UF, arr, mat_edges
from vlib.hgc import mk_graph
from props.p07 import cgraph


def thresholds(n, E, w, bad):
    """[(level, {region: True})]: for each distinct level, the regions that are components of the edges of weight at
    most the level and that are valid for it; bad(region, level) -> constraint not satisfied"""
    out = []
    for k in sorted(set(w) | {0}):
        u = UF(n)
        for (a, b), x in zip(E, w):
            if x <= k:
                u.union(a, b)
        comp = {}
        for v in range(n):
            comp.setdefault(u.find(v), []).append(v)
        out.append((k, [frozenset(x) for x in comp.values()]))
    return out


def verify(ctx, tree, alt, n, E, w, measure):
    """measure(region) -> value that must not exceed the level"""
    p = tree.parents().tolist()
    r = T(p)
    al = alt.tolist()
    req(tree.num_leaves() == n and r.nl == n and len(al) == len(p), "leaves", r.nl, n)
    req(all(x == 0 for x in al[:n]), "leaf altitudes", al[:n])
    for i in r.inner():
        if p[i] != i:
            req(al[i] < al[p[i]], "altitudes do not strictly increase at node", i, al, p)
    if n == 1:
        return False
    th = thresholds(n, E, w, measure)
    top = min(k for k, c in th if len(c) == 1)
    req(al[r.root] == top, "level of the root", al[r.root], top)
    # each region with the smallest level for which it is a valid component
    exp = {}
    for j, (k, comps) in enumerate(th):
        nxt = th[j + 1][0] if j + 1 < len(th) else None
        for x in comps:
            if len(x) > 1 and x not in exp:
                m = max(k, measure(x))
                # x is a component for the levels [k, last[ : find where it stops
                stop = next((kk for kk, cc in th[j + 1:] if x not in cc), None)
                if len(x) == n:
                    exp[x] = top
                elif stop is None or m < stop:
                    exp[x] = m
                else:
                    exp.setdefault(x, None)
    exp = {k: v for k, v in exp.items() if v is not None}
    got = {}
    for i in r.inner():
        req(r.leaves_of[i] not in got, "region appears twice", sorted(r.leaves_of[i]))
        got[r.leaves_of[i]] = al[i]
    req(got == exp, "regions and levels", {tuple(sorted(k)): v for k, v in got.items()}, "expected",
        {tuple(sorted(k)): v for k, v in exp.items()})
    if any(len(x) > 1 and x not in exp for _, c in th for x in c):
        ctx.ev("a quasi-flat zone was rejected")
    if any(measure(x) > k for k, c in th for x in c if x in exp):
        ctx.ev("a region is delayed by its range")
    return n > 3 and len(exp) > 1


def s_ao(draw):
    image = draw(G.st.integers(0, 3)) == 0
    if image:
        sh = [G.integer(draw, 1, G.sz(4, 2)), G.integer(draw, 1, G.sz(5, 2))]
        n = sh[0] * sh[1]
        g = {"n": n, "sh": sh, "conn": G.choice(draw, [4, 8])}
    else:
        g = cgraph(draw)
        n = g["n"]
    w = G.weights(draw, n, kinds=["ties", "small", "small", "wide"], layout=not image)
    if draw(G.st.integers(0, 5)) == 0 and not w["dtype"].startswith("float"):
        i = np.iinfo(w["dtype"])
        if i.bits <= 16:
            w["v"] = [int(i.min) + int(abs(x)) * 37 % (int(i.max) - int(i.min) + 1) for x in w["v"]]
    return {"g": g, "w": w}


def c_ao(c, ctx):
    g = c["g"]
    n = g["n"]
    w = arr(c["w"])
    if "sh" in g:
        gr = (hg.get_4_adjacency_graph if g["conn"] == 4 else hg.get_8_adjacency_graph)(g["sh"])
        s, t = gr.edge_list()
        E = list(zip(s.tolist(), t.tolist()))
        w = w.reshape(g["sh"])
    else:
        gr = mk_graph(g)
        E = mat_edges(g)
    wl = w.ravel().tolist()
    w0 = w.copy()
    tree, alt = hg.constrained_connectivity_hierarchy_alpha_omega(gr, w)
    req(np.array_equal(w, w0), "vertex weights modified")
    req(hg.CptHierarchy.get_leaf_graph(tree).num_vertices() == n, "leaf graph")
    ew = [abs(wl[a] - wl[b]) for a, b in E]
    ctx.ev(c["w"]["dtype"])
    return verify(ctx, tree, alt, n, E, ew, lambda x: max(wl[v] for v in x) - min(wl[v] for v in x))


def s_strong(draw):
    g = G.graph(draw, 9, 1, 12) if draw(G.st.integers(0, 3)) else cgraph(draw)
    keep = [i for i in range(len(g["s"])) if g["s"][i] != g["t"][i]]
    g = {"n": g["n"], "s": [g["s"][i] for i in keep], "t": [g["t"][i] for i in keep]}
    return {"g": g, "w": G.weights(draw, len(keep), kinds=["ties", "small", "small", "wide"], nonneg=True)}


def c_strong(c, ctx):
    g = c["g"]
    n = g["n"]
    E = mat_edges(g)
    w = arr(c["w"])
    w0 = w.copy()
    gr = mk_graph(g)
    tree, alt = hg.constrained_connectivity_hierarchy_strong_connection(gr, w)
    req(np.array_equal(w, w0), "edge weights modified")
    req(hg.CptHierarchy.get_leaf_graph(tree).num_edges() == len(E), "leaf graph")
    wl = w.tolist()
    ctx.ev(c["w"]["dtype"])
    return verify(ctx, tree, alt, n, E, wl,
                  lambda x: max([0] + [y for (a, b), y in zip(E, wl) if a in x and b in x]))


SUBTESTS = [
    Sub("alpha_omega", s_ao, c_ao, 3000, rule="more than 3 vertices and at least 2 non trivial regions", shard=380),
    Sub("strong_connection", s_strong, c_strong, 3000, rule="more than 3 vertices and at least 2 non trivial regions", shard=380),
]
