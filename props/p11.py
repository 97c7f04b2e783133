"""P11: watershed cuts, seeded watersheds and watershed hierarchies."""
import numpy as np
import higra as hg
from vlib.core import Sub, req
from vlib import gen as G
from vlib.ref import T, UF, arr, mat_edges, minimax, components
from vlib.hgc import mk_graph
from props.p07 import extreme, kruskal


def wgraph(draw, conn=True, big=True):
    if big and draw(G.st.integers(0, 8)) == 0:
        import random
        r = random.Random(G.seed32(draw))
        if r.random() < .4:
            h, w = r.randint(2, 6), r.randint(2, 6)
            E = [(i * w + j, i * w + j + 1) for i in range(h) for j in range(w - 1)] + [(i * w + j, i * w + w + j) for i in range(h - 1) for j in range(w)]
            n = h * w
        else:
            n = r.randint(9, 40)
            E = [(i, r.randrange(max(0, i - 4), i)) for i in range(1, n)]
            for _ in range(r.randint(0, n)):
                a, b = r.randrange(n), r.randrange(n)
                if a != b:
                    E.append((a, b))
        r.shuffle(E)
        return {"n": n, "s": [e[0] for e in E], "t": [e[1] for e in E]}
    return G.graph(draw, 10, 1, 8, connected=conn, loops=False)


def minima(n, E, w):
    """list of vertex sets of the regional minima (components of edges of level k without lower adjacent edge)"""
    out = []
    for lv in sorted(set(w)):
        u = UF(n)
        es = [e for e in range(len(E)) if w[e] == lv]
        for e in es:
            u.union(*E[e])
        comp = {}
        for e in es:
            comp.setdefault(u.find(E[e][0]), set()).update(E[e])
        for c in comp.values():
            if all(w[e] >= lv for e in range(len(E)) if E[e][0] in c or E[e][1] in c):
                out.append(frozenset(c))
    return out


# ------------------------------------------------------------------ watershed cut
def s_cut(draw):
    g = wgraph(draw, draw(G.st.integers(0, 3)) > 0)
    w = extreme(draw, G.weights(draw, len(g["s"]), kinds=["ties", "small", "small", "wide"]))
    return {"g": g, "w": w}


def c_cut(c, ctx):
    g, n = c["g"], c["g"]["n"]
    E = mat_edges(g)
    w = arr(c["w"])
    wl, w0 = w.tolist(), w.copy()
    gr = mk_graph(g)
    lab = hg.labelisation_watershed(gr, w)
    req(np.array_equal(w, w0), "weights modified")
    req(lab.shape == (n,), "shape")
    lab = lab.tolist()
    M = minima(n, E, wl)
    iso = [frozenset([v]) for v in range(n) if not any(v in e for e in E)]
    k = len(M) + len(iso)
    req(sorted(set(lab)) == list(range(1, k + 1)), "labels", lab, "expected", k, "basins")
    seen = set()
    for m in M + iso:
        l = set(lab[v] for v in m)
        req(len(l) == 1, "minimum with several labels", sorted(m), lab)
        req(not (l & seen), "two minima with the same label", sorted(m), lab)
        seen |= l
    root = {lab[min(m)]: m for m in M + iso}
    fm = [min([wl[e] for e in range(len(E)) if v in E[e]], default=None) for v in range(n)]
    for v in range(n):
        # path of steepest descent inside the basin
        st, done = [v], {v}
        ok = False
        while st and not ok:
            x = st.pop()
            if x in root[lab[v]]:
                ok = True
                break
            for e, (a, b) in enumerate(E):
                if x in (a, b) and wl[e] == fm[x]:
                    y = b if x == a else a
                    if y not in done and lab[y] == lab[v]:
                        done.add(y)
                        st.append(y)
        req(ok, "no path of steepest descent to the minimum of the basin from vertex", v, lab)
    ctx.ev("%d basins" % k if k < 4 else "4+ basins")
    return n > 3 and k > 1


# ------------------------------------------------------------------ seeded watershed
def s_seed(draw):
    g = wgraph(draw, draw(G.st.integers(0, 3)) > 0)
    n = g["n"]
    w = extreme(draw, G.weights(draw, len(g["s"]), kinds=["ties", "small", "wide"]))
    bg = G.choice(draw, [None, None, 0, -1, 3, 7])
    dt = G.choice(draw, ["int64", "int32", "uint8", "int16", "uint64", "int8"])
    b = 0 if bg is None else bg
    if b < 0 and dt.startswith("u"):
        dt = "int64"
    pal = [b, b, b, 1, 2, 0, 5] if dt.startswith("u") else [b, b, b, 1, 2, -4, 0]
    return {"g": g, "w": w, "bg": bg, "seeds": {"dtype": dt, "v": [pal[i] for i in G.seq(draw, n, 7)]}}


def c_seed(c, ctx):
    g, n = c["g"], c["g"]["n"]
    E = mat_edges(g)
    w = arr(c["w"])
    wl = w.tolist()
    s = arr(c["seeds"])
    s0, w0 = s.copy(), w.copy()
    gr = mk_graph(g)
    bg = 0 if c["bg"] is None else c["bg"]
    lab = hg.labelisation_seeded_watershed(gr, w, s) if c["bg"] is None else hg.labelisation_seeded_watershed(gr, w, s, bg)
    req(np.array_equal(s, s0) and np.array_equal(w, w0), "inputs modified")
    lab = lab.tolist()
    sl = s.tolist()
    seeds = [v for v in range(n) if sl[v] != bg]
    D = minimax(n, E, wl)
    comp = components(n, E)
    for v in range(n):
        if v in seeds:
            req(lab[v] == sl[v], "seed", v, "changed label", lab)
            continue
        reach = [x for x in seeds if comp[x] == comp[v]]
        if not reach:
            req(lab[v] == bg, "vertex", v, "cannot be reached but is labelled", lab)
            continue
        best = min(D[v][x] for x in reach)
        req(lab[v] != bg, "vertex", v, "left in the background", lab)
        # a seed of this label must be reachable inside the region at the optimal cost
        u = UF(n)
        for e, (a, b) in enumerate(E):
            if lab[a] == lab[v] == lab[b] and wl[e] <= best:
                u.union(a, b)
        req(any(u.find(x) == u.find(v) and sl[x] == lab[v] for x in seeds),
            "vertex", v, "is not connected to a closest seed inside its region", lab, best)
    ctx.ev("%d seeds" % min(len(seeds), 4))
    return len(seeds) > 1 and n > len(seeds)


# ------------------------------------------------------------------ hierarchies
def zones_with_death(n, E, w):
    """quasi-flat zones (at least one edge): (vertices, level, death level or None)"""
    out = []
    u = UF(n)
    lv = sorted(set(w))
    alive = {}
    for l in lv:
        for e, (a, b) in enumerate(E):
            if w[e] == l:
                u.union(a, b)
        comp = {}
        for v in range(n):
            comp.setdefault(u.find(v), set()).add(v)
        now = set(frozenset(x) for x in comp.values() if len(x) > 1)
        for z in list(alive):
            if z not in now:
                out.append((z, alive.pop(z), l))
        for z in now:
            alive.setdefault(z, l)
    for z in alive:
        out.append((z, alive[z], None))
    return out


def expected(n, E, w, value):
    """mst edges (Kruskal order) and level of each: smaller side value; value(zone, level, death, zones)"""
    order = sorted(range(len(E)), key=lambda i: w[i])
    par, mst = kruskal(n, E, order)
    Z = zones_with_death(n, E, w)
    val = {z: value(z, l, d, Z) for z, l, d in Z}
    r = T(par)
    lev = []
    for i, e in enumerate(mst):
        k = n + i
        side = []
        for ch in r.ch[k]:
            S = r.leaves_of[ch]
            side.append(max([val[z] for z, l, d in Z if d is not None and d <= w[e] and z <= S], default=0))
        lev.append(min(side))
    return mst, lev


def s_hier(draw):
    kind = G.choice(draw, ["area", "volume", "dynamics", "parents", "custom", "minima", "minima"])
    g = wgraph(draw)
    w = G.weights(draw, len(g["s"]), kinds=["ties", "small", "small", "wide"], nonneg=draw(G.st.booleans()))
    return {"g": g, "w": w, "kind": kind, "canon": draw(G.st.booleans()), "key": G.seq(draw, max(64, g["n"]), 256),
            "area": [1 + x for x in G.seq(draw, g["n"], 4)] if draw(G.st.booleans()) else None,
            "adt": G.choice(draw, ["float64", "int64", "uint8"]), "alts": draw(G.st.booleans()),
            "multi": draw(G.st.booleans())}


def c_hier(c, ctx):
    g, n = c["g"], c["g"]["n"]
    E = mat_edges(g)
    if not E:
        return False
    w = arr(c["w"])
    wl, w0 = [x for x in w.tolist()], w.copy()
    gr = mk_graph(g)
    kind, canon = c["kind"], c["canon"]
    kw = {} if canon and c["key"][0] & 1 else {"canonize_tree": canon}
    area = None if c["area"] is None else np.array(c["area"], dtype=c["adt"])
    A = [1] * n if c["area"] is None else c["area"]
    M = minima(n, E, wl)
    fm = [min([wl[e] for e in range(len(E)) if v in E[e]], default=0) for v in range(n)]
    table = None
    if kind == "area":
        t, a = hg.watershed_hierarchy_by_area(gr, w, area, **kw)
        mst, lev = expected(n, E, wl, lambda z, l, d, Z: sum(A[v] for v in z))
    elif kind == "volume":
        t, a = hg.watershed_hierarchy_by_volume(gr, w, area, **kw)
        mst, lev = expected(n, E, wl, lambda z, l, d, Z: 0 if d is None else sum(A[v] * (d - fm[v]) for v in z))
    elif kind == "dynamics":
        t, a = hg.watershed_hierarchy_by_dynamics(gr, w, **kw)
        mst, lev = None, None
    elif kind == "parents":
        t, a = hg.watershed_hierarchy_by_number_of_parents(gr, w, **kw)
        ms = set(M)
        mst, lev = expected(n, E, wl, lambda z, l, d, Z: 1 + sum(1 for y, _, _ in Z if y <= z and y not in ms))
    elif kind == "custom":
        calls = []

        def fn(tree, alt):
            r = T(tree.parents().tolist())
            calls.append((tree.parents().tolist(), alt.tolist(), hg.CptHierarchy.get_leaf_graph(tree).num_edges()))
            return np.array([len(s) + 0.5 * max(s) + sum(1 for v in s if c["key"][v] & 1) for s in r.leaves_of], dtype=np.float64)
        t, a = hg.watershed_hierarchy_by_attribute(gr, w, fn, **kw)
        mst, lev = expected(n, E, wl, lambda z, l, d, Z: len(z) + 0.5 * max(z) + sum(1 for v in z if c["key"][v] & 1))
        par, m2 = kruskal(n, E, sorted(range(len(E)), key=lambda i: wl[i]))
        req(len(calls) == 1 and calls[0][0] == par and calls[0][2] == len(E), "attribute functor not called on the canonical tree")
        req(calls[0][1][n:] == [wl[e] for e in m2], "altitudes given to the functor", calls[0][1])
    else:
        rank = [x + 1 for x in sorted(range(len(M)), key=lambda i: (c["key"][i], i))]
        rk = {m: rank[i] for i, m in enumerate(M)}
        vr = [0] * n
        for m in M:
            vs = sorted(m)
            pick = [v for v in vs if c["key"][32 + v % 30] & 1] if c["multi"] else []
            for v in pick or [vs[c["key"][40] % len(vs)]]:
                vr[v] = rk[m]
        mk = {}
        if c["alts"]:
            table = np.cumsum([0] + [x % 3 for x in c["key"][:len(M)]]).astype(np.float64)
            mk["minima_altitudes"] = table
        t, a = hg.watershed_hierarchy_by_minima_ordering(gr, w, np.array(vr, dtype=G_int(c["key"][1])), **mk, **kw)
        mst, lev = expected(n, E, wl, lambda z, l, d, Z: max([rk[m] for m in M if m <= z], default=0))
    req(np.array_equal(w, w0), "weights modified")
    if kind == "dynamics":
        order = sorted(range(len(E)), key=lambda i: wl[i])
        par, mst = kruskal(n, E, order)
        Z = zones_with_death(n, E, wl)
        r0 = T(par)
        lev = []
        for i, e in enumerate(mst):
            d = []
            for ch in r0.ch[n + i]:
                S = r0.leaves_of[ch]
                low = [l for z, l, dd in Z if dd is not None and dd <= wl[e] and z <= S]
                d.append(wl[e] - min(low) if low else 0)
            lev.append(min(d))
    req(t.num_leaves() == n, "leaves")
    r = T(t.parents().tolist())
    al = [float(x) for x in a]
    D = minimax(n, [E[e] for e in mst], lev)
    tol = 1e-6 if kind in ("volume", "dynamics") and w.dtype == np.float32 else 1e-9
    f = (lambda x: x) if table is None else (lambda x: float(table[int(x)]))
    for x in range(n):
        for y in range(x):
            e = f(D[x][y])
            req(abs(al[r.lca(x, y)] - e) <= tol * max(1, abs(e)), "level of the merge of", x, y, al[r.lca(x, y)], e)
    req(all(al[i] <= al[r.p[i]] for i in range(r.n)), "altitudes not increasing")
    if canon:
        nl = set(D[x][y] for x in range(n) for y in range(x))
        for i in range(n, r.n - 1):
            if table is None:
                req(al[i] < al[r.p[i]], "hierarchy not canonized", i)
    else:
        req(r.n == 2 * n - 1 and all(len(r.ch[i]) == 2 for i in range(n, r.n)), "not a binary tree")
        m = np.asarray(t.mst_edge_map).tolist()
        req(sorted(m) == sorted(mst), "mst_edge_map", m, mst)
        mg = hg.CptBinaryHierarchy.get_mst(t)
        s, tt = mg.edge_list()
        req([tuple(sorted(q)) for q in zip(s.tolist(), tt.tolist())] == [tuple(sorted(E[e])) for e in m], "edges of the mst")
        for i, e in enumerate(m):
            req(r.lca(*E[e]) == n + i, "edge of the inner node", n + i)
    req(hg.CptHierarchy.get_leaf_graph(t).num_edges() == len(E), "leaf graph")
    if kind == "minima" and table is None:
        # each level is a minimum spanning forest rooted in the minima of larger rank
        for q in range(len(M)):
            keep = [m for m in M if rk[m] > q]
            u = UF(n)
            for x in range(n):
                for y in range(x):
                    if al[r.lca(x, y)] <= q:
                        u.union(x, y)
            regs = {}
            for v in range(n):
                regs.setdefault(u.find(v), set()).add(v)
            tot = 0
            for R in regs.values():
                ins = [m for m in keep if m <= R]
                req(len(ins) == 1, "level", q, ": region with", len(ins), "preserved minima", sorted(R))
                f2 = UF(n)
                for v in ins[0]:
                    f2.union(v, min(ins[0]))
                for e in sorted(range(len(E)), key=lambda i: wl[i]):
                    if E[e][0] in R and E[e][1] in R and f2.union(*E[e]):
                        tot += wl[e]
                req(len(set(f2.find(v) for v in R)) == 1, "level", q, ": disconnected region", sorted(R))
            f3 = UF(n)
            allm = [v for m in keep for v in m]
            for v in allm:
                f3.union(v, allm[0])
            opt = sum(wl[e] for e in sorted(range(len(E)), key=lambda i: wl[i]) if f3.union(*E[e]))
            req(abs(opt - tot) <= 1e-9 * max(1, abs(opt)), "level", q, "is not a minimum spanning forest", tot, opt)
    ctx.ev(kind + (" canonized" if canon else ""))
    return len(M) > 1 and n > 3


def G_int(k):
    return ["int64", "uint8", "int32", "uint64"][k % 4]


# ------------------------------------------------------------------ images
def s_img(draw):
    sh = [G.integer(draw, 1, G.sz(5, 2)), G.integer(draw, 1, G.sz(5, 2))]
    return {"sh": sh, "v": G.seq(draw, sh[0] * sh[1], 5), "seeds": G.seq(draw, sh[0] * sh[1], 5)}


def c_img(c, ctx):
    sh = tuple(c["sh"])
    gr = hg.get_4_adjacency_graph(sh)
    im = np.array(c["v"], dtype=np.float64).reshape(sh)
    w = hg.weight_graph(gr, im, hg.WeightFunction.L1)
    if len(w) == 0:
        return False
    n = sh[0] * sh[1]
    g2 = hg.UndirectedGraph(n)
    s, t = gr.edge_list()
    g2.add_edges(s, t)
    l = hg.labelisation_watershed(gr, w)
    req(l.shape == sh, "labels of an image have its shape", l.shape)
    req(np.array_equal(l.ravel(), hg.labelisation_watershed(g2, w)), "labels on the image and on its graph")
    sd = np.array([x - 2 if x > 2 else 0 for x in c["seeds"]], dtype=np.int64).reshape(sh)
    l = hg.labelisation_seeded_watershed(gr, w, sd)
    req(l.shape == sh, "shape of the seeded watershed")
    req(np.array_equal(l.ravel(), hg.labelisation_seeded_watershed(g2, w, sd.ravel())), "seeded watershed on the image and on its graph")
    return n > 3


SUBTESTS = [
    Sub("cut", s_cut, c_cut, 3000, rule="more than 3 vertices and at least 2 basins", shard=380),
    Sub("seeded", s_seed, c_seed, 2500, rule="at least 2 seeds and a vertex without seed", shard=320),
    Sub("hierarchies", s_hier, c_hier, 2500, rule="at least 2 minima and 4 vertices", shard=160),
    Sub("images", s_img, c_img, 400, rule="more than 3 pixels", shard=100),
]
