"""P20: optimal energy cuts, Mumford-Shah partition trees, monotonic regressions."""
import itertools
import numpy as np
import higra as hg
from vlib.core import Sub, req, Skip
from vlib import gen as G
from vlib.ref import T, arr, mat_edges, UF
from vlib.hgc import mk_tree, mk_graph
from props.p17 import world, W

INF = float("inf")


def region_table(r, energy):
    """best energy of a region (frozenset of leaves) among the nodes representing it"""
    d = {}
    for i in range(r.n):
        k = frozenset(r.leaves_of[i])
        d[k] = min(d.get(k, INF), energy[i])
    return d


def regions_of(labels):
    d = {}
    for i, x in enumerate(labels):
        d.setdefault(x, []).append(i)
    return [frozenset(x) for x in d.values()]


def optimum(r, e, acc=sum):
    o = list(e)
    for i in r.inner():
        o[i] = min(e[i], acc([o[x] for x in r.ch[i]]))
    return o


# ------------------------------------------------------------------ optimal cut of an energy
def s_cut(draw):
    p = G.tree(draw, 10, 9, big=60)
    r = T(p)
    lv = G.choice(draw, [2, 4, 12, 200])
    k = draw(G.st.integers(0, 5))
    ac = G.choice(draw, ["sum", "sum", "sum", "min", "max", "default"])
    e = G.seq(draw, len(p), lv)
    if k == 1:
        e = [x - lv // 2 for x in e]
    elif k >= 2:  # energies close to the ones of the children, so that deep decisions are tight
        o = list(e)
        f = {"min": min, "max": max}.get(ac, sum)
        m = G.choice(draw, [3, 5])
        for i in r.inner():
            b = f([o[x] for x in r.ch[i]])
            e[i] = b + e[i] % m - 1
            o[i] = min(e[i], b)
    nl = G.num_leaves(p)
    fs = [x for x in range(1, nl + 1) if nl % x == 0]
    return {"p": p, "e": e, "dt": G.choice(draw, ["float64", "float64", "float32", "int64", "int32"]), "ch": draw(G.st.integers(0, 2)),
            "acc": ac, "sh": G.choice(draw, [None, None] + fs), "bad": draw(G.st.integers(0, 30)) == 0}


def c_cut(c, ctx):
    r = T(c["p"])
    t = mk_tree(c["p"], c["ch"])
    e = c["e"]
    a = np.array(e).astype(c["dt"])
    kw = {}
    if c["sh"] and r.n > 1:
        g = hg.get_4_adjacency_graph((c["sh"], r.nl // c["sh"]))
        hg.CptHierarchy.link(t, g)
    if c["acc"] != "default":
        kw["accumulator"] = getattr(hg.Accumulators, c["acc"])
    lab = hg.labelisation_optimal_cut_from_energy(t, a, **kw)
    if c["sh"] and r.n > 1:
        req(lab.shape == (c["sh"], r.nl // c["sh"]), "shape of the labelisation", lab.shape)
    else:
        req(lab.shape == (r.nl,), "shape of the labelisation", lab.shape)
    lab = np.asarray(lab).ravel().tolist()
    acc = {"sum": sum, "min": min, "max": max, "default": sum}[c["acc"]]
    tab = region_table(r, e)
    regs = regions_of(lab)
    for s in regs:
        req(s in tab, "region", sorted(s), "of the labelisation", lab, "is not a node of the tree")
    got = acc([tab[s] for s in regs])
    best = optimum(r, e, acc)[r.root]
    req(got == best, "energy (%s)" % c["acc"], e, "of the labelisation", lab, ":", got, "optimum", best)
    if c["bad"]:
        for f in (lambda: hg.labelisation_optimal_cut_from_energy(t, a[:-1]),
                  lambda: hg.labelisation_optimal_cut_from_energy(t, a, accumulator=hg.Accumulators.mean)):
            try:
                f()
            except Exception:
                continue
            req(False, "invalid argument accepted")
    return 1 < len(regs) < r.nl


# ------------------------------------------------------------------ optimal energy cut hierarchy
def s_hier(draw):
    p = G.tree(draw, 9, 8, big=30)
    r = T(p)
    R, D = [0] * r.n, [0] * r.n
    q = G.seq(draw, r.n, 8)
    d = G.seq(draw, r.n, G.choice(draw, [3, 10, 40]))
    zr = draw(G.st.integers(0, 3))
    for i in range(r.n):
        if i < r.nl:
            R[i] = q[i] + (1 if zr else 0)
            D[i] = d[i] if draw(G.st.booleans()) else 0
        else:
            s = sum(R[x] for x in r.ch[i])
            R[i] = s if q[i] == 7 else (s * (q[i] + 1)) // 8
            k = sum(D[x] for x in r.ch[i])
            # most often larger than the children, sometimes equal or smaller
            D[i] = k + d[i] if q[i] % 4 else max(0, k + d[i] - 4)
    return {"p": p, "D": D, "R": R, "dt": G.choice(draw, ["float64", "float64", "float32", "int32", "int64"]),
            "pieces": G.choice(draw, [None, 10, 1000, 1000, 1000]), "ch": draw(G.st.integers(0, 2)), "scale": G.choice(draw, [1, 1, 4])}


def check_hierarchy(r, D, R, nt, na, what, tol=1e-9, approx=False):
    """every horizontal cut of (nt, na) is a cut of the tree r of minimal energy"""
    tab = {}
    for i in range(r.n):
        tab.setdefault(frozenset(r.leaves_of[i]), []).append(i)
    q = T(np.asarray(nt.parents()).tolist())
    na = np.asarray(na, dtype=np.float64).tolist()
    req(len(na) == q.n and q.nl == r.nl, what, "sizes", len(na), q.n, q.nl)
    for i in range(q.n):
        req(na[i] == na[i], what, "altitude nan", na)
        req(na[i] <= na[q.p[i]], what, "altitudes not increasing", na, q.p)
        req(frozenset(q.leaves_of[i]) in tab, what, "node", i, "is not a region of the input")
    lv = sorted({max(x, 0.0) for x in na if x < INF})
    test = []
    for a, b in zip(lv, lv[1:]):
        if b - a > 1e-6 * max(1, b):
            test.append((a + b) / 2)
    test += [(lv[-1] if lv else 0) + 1, ((lv[-1] if lv else 0) + 1) * 1000]
    if not lv or min(lv) > 1e-6:
        test.append(0.0)
    nreg = set()
    for lam in test:
        cut = [i for i in range(q.n) if (na[i] <= lam or i < q.nl) and (q.p[i] == i or na[q.p[i]] > lam)]
        nreg.add(len(cut))
        if approx:
            continue
        e = [D[i] + lam * R[i] for i in range(r.n)]
        best = optimum(r, e)[r.root]
        got = sum(min(e[x] for x in tab[frozenset(q.leaves_of[i])]) for i in cut)
        req(abs(got - best) <= tol * max(1, abs(best)), what, "horizontal cut at", lam, "has energy", got, "optimum", best,
            "regions", [sorted(q.leaves_of[i]) for i in cut])
    return nreg


def c_hier(c, ctx):
    r = T(c["p"])
    D = [x / c["scale"] for x in c["D"]]
    R = [x / c["scale"] for x in c["R"]]
    if c["dt"].startswith("int"):
        D, R = c["D"], c["R"]
    t = mk_tree(c["p"], c["ch"])
    kw = {} if c["pieces"] is None else {"approximation_piecewise_linear_function": c["pieces"]}
    nt, na = hg.hierarchy_to_optimal_energy_cut_hierarchy(t, np.array(D).astype(c["dt"]), np.array(R).astype(c["dt"]), **kw)
    exact = c["pieces"] == 1000 or r.nl <= 9  # (the energy of a node has at most one piece per leaf and one)
    nreg = check_hierarchy(r, D, R, nt, na, "optimal energy cut hierarchy", approx=not exact)
    if not exact:
        ctx.ev("approximated")
    if len(nreg) > 2:
        ctx.ev("several distinct cuts")
    return exact and len(nreg) > 1


# ------------------------------------------------------------------ Mumford-Shah energies of a hierarchy
def s_ms(draw):
    c = world(draw)
    n = c["g"]["n"]
    k = G.choice(draw, [None, None, 1, 2, 3])
    c.update({"v": G.seq(draw, n * (k or 1), G.choice(draw, [2, 6, 50])), "k": k,
              "dt": G.choice(draw, ["float64", "float64", "int32", "uint8", "float32"]), "lam": G.integer(draw, 0, 9)})
    return c


def c_ms(c, ctx):
    w = W(c)
    r = w.r
    if r.n == 1:
        raise Skip()
    v = np.array(c["v"])
    if c["k"]:
        v = v.reshape((-1, c["k"]))
    x = v.astype(c["dt"])
    if w.shape is not None and c["nd"] and not (c["k"] and w.shape[1] == c["k"]) and not (c["k"] == 1 and w.shape[1] == 1):
        x = x.reshape(w.shape + x.shape[1:])
    if w.shape is not None and not c["nd"] and x.shape[:2] == w.shape:
        raise Skip()  # (documented ambiguity)
    hg.CptHierarchy.link(w.tree, w.graph)
    vv = v.reshape((r.nl, -1)).astype(np.float64)
    area = [sum(w.area[i] for i in r.leaves_of[n]) for n in range(r.n)]
    D, R = [], []
    for n in range(r.n):
        l = sorted(r.leaves_of[n])
        s = set(l)
        D.append(float(vv[l].var(axis=0).sum()) * area[n])
        R.append(sum(w.perimeter[i] for i in l) - 2 * sum(k for (a, b), k in zip(w.E, w.length) if a in s and b in s))
    g = float(c["lam"])
    e = hg.attribute_piecewise_constant_Mumford_Shah_energy(w.tree, x, g)
    exp = np.array([D[n] + g * R[n] for n in range(r.n)])
    tol = 1e-4 if c["dt"] == "float32" else 1e-8
    req(e.shape == (r.n,) and np.allclose(e, exp, rtol=tol, atol=tol), "Mumford-Shah energy", e.tolist(), exp.tolist())
    nt, na = hg.hierarchy_to_optimal_MumfordShah_energy_cut_hierarchy(w.tree, x, approximation_piecewise_linear_function=1000)
    req(hg.CptHierarchy.get_leaf_graph(nt) is w.graph, "leaf graph of the result")
    if c["dt"] != "float32":
        nreg = check_hierarchy(r, D, R, nt, na, "optimal Mumford-Shah cut hierarchy", 1e-6)
        return len(nreg) > 1
    return False


# ------------------------------------------------------------------ binary partition tree of the Mumford-Shah energy
class Pieces:
    """concave piecewise linear function given as the minimum of lines (D, R)"""

    def __init__(self, lines):
        self.lines = lines


def scale_of(cands_i, cands_j, D, R):
    """smallest scale from which the line (D, R) is below the sum of the two energies.
    cands: lists of lines (D, R) whose lower envelope is the optimal energy"""
    res = 0.0
    # D + l R <= Di + Dj + l (Ri + Rj) for every pair of lines
    for di, ri in cands_i:
        for dj, rj in cands_j:
            dd, rr = D - di - dj, ri + rj - R
            if rr > 1e-12:
                res = max(res, dd / rr)
            elif dd > 1e-9 * max(1, abs(D)):
                return INF
    return res


def hull(lines):
    """lines of the lower envelope on the positive reals (plus possibly a few others)"""
    lines = sorted(set(lines), key=lambda x: (x[0], x[1]))
    res = []
    for d, rr in lines:  # increasing D: only useful with a smaller R
        if not res or rr < res[-1][1]:
            res.append((d, rr))
    out = []
    for l in res:
        while len(out) >= 2:
            (d1, r1), (d2, r2) = out[-2], out[-1]
            # out[-1] useless when l gets below out[-2] before out[-1] does
            if (l[0] - d1) * (r1 - r2) <= (d2 - d1) * (r1 - l[1]):
                out.pop()
            else:
                break
        out.append(l)
    return out


def s_bpt(draw):
    if draw(G.st.integers(0, 2)) == 0:
        h, w = G.integer(draw, 1, G.sz(3, 2)), G.integer(draw, 2, G.sz(3, 2))
        g = {"kind": "grid", "sh": [h, w], "n": h * w}
        ne = h * (w - 1) + w * (h - 1)
    else:
        g = G.graph(draw, 9, 2, 8, multi=False)
        g["kind"] = "graph"
        ne = len(g["s"])
    n = g["n"]
    k = G.choice(draw, [None, None, 2, 3])
    return {"g": g, "v": G.seq(draw, n * (k or 1), G.choice(draw, [2, 5, 40])), "k": k, "full": draw(G.st.booleans()),
            "len": [1 + x for x in G.seq(draw, ne, 3)], "bord": G.seq(draw, n, 3), "area": [1 + x for x in G.seq(draw, n, 4)],
            "inner": G.seq(draw, n * (k or 1), 4), "dt": G.choice(draw, ["float64", "float64", "int64", "int32", "uint8"])}


def c_bpt(c, ctx):
    g = c["g"]
    n = g["n"]
    k = c["k"]
    if g["kind"] == "grid":
        gr = hg.get_4_adjacency_graph(g["sh"])
        s, t = gr.edge_list()
        E = list(zip(s.tolist(), t.tolist()))
    else:
        gr, E = mk_graph(g), mat_edges(g)
    v = np.array(c["v"]).reshape((n, -1)).astype(np.float64)
    x = np.array(c["v"]).astype(c["dt"])
    if k:
        x = x.reshape((n, k))
    kw = {}
    if c["full"]:
        length = [float(c["len"][i]) for i in range(len(E))]
        area = [float(a) for a in c["area"]]
        per = [float(c["bord"][u]) + sum(l for (a, b), l in zip(E, length) if u in (a, b)) for u in range(n)]
        # values: area * mean, squares: as many values of non negative variance
        S = v * np.array(area)[:, None]
        Q = v * v * np.array(area)[:, None] + np.array(c["inner"]).reshape((n, -1))
        f = (lambda a: a) if k else (lambda a: a[:, 0])
        kw = dict(vertex_area=np.array(area), vertex_perimeter=np.array(per), edge_length=np.array(length),
                  squared_vertex_values=f(Q))
        x = f(S)
    else:
        length = [1.0] * len(E)
        area = [1.0] * n
        per = [4.0 if g["kind"] == "grid" else float(sum(u in e for e in E)) for u in range(n)]
        S, Q = v, v * v
    tree, alt = hg.binary_partition_tree_MumfordShah_energy(gr, x, **kw)
    p = np.asarray(tree.parents()).tolist()
    r = T(p)
    req(r.nl == n and r.n == 2 * n - 1, "sizes", r.n, r.nl)
    req(np.asarray(alt)[:n].tolist() == [0] * n, "altitudes of the leaves", alt.tolist())
    req(hg.CptHierarchy.get_leaf_graph(tree) is gr, "leaf graph")
    # replay
    nodes = {}
    for i in range(n):
        d = float((Q[i] - S[i] * S[i] / area[i]).sum())
        nodes[i] = (area[i], S[i], Q[i], per[i], [(d, per[i])])
    fr = {}
    for (a, b), l in zip(E, length):
        fr[frozenset((a, b))] = fr.get(frozenset((a, b)), 0.0) + l

    def merged(a, b):
        A, B = nodes[a], nodes[b]
        ar, ss, qq = A[0] + B[0], A[1] + B[1], A[2] + B[2]
        pe = A[3] + B[3] - 2 * fr[frozenset((a, b))]
        d = float((qq - ss * ss / ar).sum())
        return ar, ss, qq, pe, d, scale_of(A[4], B[4], d, pe)

    exact = True
    for m in range(n, 2 * n - 1):
        a, b = r.ch[m]
        key = frozenset((a, b))
        req(key in fr, "node", m, "merges", a, b, "which are not adjacent regions")
        # the library only keeps 10 pieces of each energy function: from there, its scales are approximations
        exact = exact and all(len(nodes[x][4]) + len(nodes[y][4]) <= 11 for x, y in fr)
        if not exact:
            ctx.ev("approximated node")
            all_s = {key: alt[m]}
        else:
            all_s = {q: merged(*q)[5] for q in fr}
        sc = all_s[key]
        lo = min(all_s.values())
        tol = 1e-7 * max(1, lo if lo < INF else 1)
        req(sc <= lo + tol, "node", m, "of apparition scale", sc, "created before one of scale", lo, "adjacent pairs",
            {tuple(sorted(q)): x for q, x in all_s.items()})
        req(alt[m] == sc or abs(alt[m] - sc) <= tol, "altitude of node", m, alt[m], "apparition scale", sc)
        if not exact:
            nodes[m] = (0, 0, 0, 0, [])
        else:
            ar, ss, qq, pe, d, _ = merged(a, b)
            nodes[m] = (ar, ss, qq, pe, hull([(x[0] + y[0], x[1] + y[1]) for x in nodes[a][4] for y in nodes[b][4]] + [(d, pe)]))
        for q in list(fr):
            if q & key:
                l = fr.pop(q)
                o = q - key
                if o:
                    nk = frozenset((next(iter(o)), m))
                    fr[nk] = fr.get(nk, 0.0) + l
        del nodes[a], nodes[b]
    return n > 3 and len(set(c["v"])) > 1


# ------------------------------------------------------------------ monotonic regression
def s_reg(draw):
    p = G.tree(draw, 10, 10, big=80)
    hi = G.choice(draw, [2, 5, 100])
    v = G.seq(draw, len(p), hi)
    if draw(G.st.integers(0, 2)) == 0:  # violations near the leaves or along paths
        r = T(p)
        v = [max(0, x % 5 + r.depth[i]) for i, x in enumerate(v)]
    return {"p": p, "v": v, "w": [1 + x for x in G.seq(draw, len(p), G.choice(draw, [1, 3, 20]))], "ch": draw(G.st.integers(0, 2)),
            "dt": G.choice(draw, G.ALL_DTYPES), "wdt": G.choice(draw, [None, None, "float64", "int32", "uint8", "float32"])}


def c_reg(c, ctx):
    p, v, w = c["p"], c["v"], c["w"]
    r = T(p)
    t = mk_tree(p, c["ch"])
    a = np.array(v).astype(c["dt"])
    if c["dt"].startswith("int") or c["dt"].startswith("float"):
        off = max(v) // 2
        v = [x - off for x in v]
        a = a - np.array(off).astype(c["dt"])
    if a.dtype.kind in "iu":
        if a.tolist() != v:     # deep trees: the values do not fit in the type
            raise Skip()
    a0 = a.copy()
    up = list(v)
    for i in range(r.n):
        if p[i] != i:
            up[p[i]] = max(up[p[i]], up[i])
    lo = list(v)
    for i in range(r.n - 1, -1, -1):
        lo[i] = min(lo[i], lo[p[i]])
    g = hg.tree_monotonic_regression(t, a, "max")
    req(g.shape == (r.n,) and g.tolist() == up, "max regression of", v, "got", g.tolist(), "expected", up)
    g = hg.tree_monotonic_regression(t, a, "min")
    req(g.shape == (r.n,) and g.tolist() == lo, "min regression of", v, "got", g.tolist(), "expected", lo)
    if c["wdt"] is None:
        w = [1] * r.n
        g = hg.tree_monotonic_regression(t, a, "least_square")
    else:
        g = hg.tree_monotonic_regression(t, a, "least_square", np.array(w).astype(c["wdt"]))
    x = np.asarray(g, dtype=np.float64).tolist()
    req(len(x) == r.n and all(y == y for y in x), "least square regression", x)
    tol = 1e-8 * max(1, max(abs(y) for y in v)) * max(w) * r.n
    lam = [0.0] * r.n
    for i in range(r.n):
        req(x[i] <= x[p[i]] + tol, "least square regression not increasing", x)
        lam[i] += w[i] * (v[i] - x[i])
        if p[i] != i:
            lam[p[i]] += lam[i]
    # optimality conditions of the (strictly convex) problem
    for i in range(r.n):
        if p[i] == i:
            req(abs(lam[i]) <= tol, "least square regression of", v, "weights", w, "not optimal (bias at the root)", x)
        else:
            req(lam[i] >= -tol and (abs(lam[i]) <= tol or abs(x[p[i]] - x[i]) <= tol), "least square regression of", v, "weights", w,
                "not optimal at node", i, x)
    req(np.array_equal(a, a0), "altitudes modified")
    try:
        hg.tree_monotonic_regression(t, a, "mean")
        req(False, "unknown mode accepted")
    except (ValueError, RuntimeError):
        pass
    return any(v[i] > v[p[i]] for i in range(r.n))


SUBTESTS = [
    Sub("cut", s_cut, c_cut, 4000, rule="an optimal cut strictly between the leaves and the root", shard=250),
    Sub("hierarchy", s_hier, c_hier, 3000, rule="at least two distinct optimal cuts, exact energy functions", shard=200),
    Sub("mumford_shah", s_ms, c_ms, 2000, rule="at least two distinct optimal cuts", shard=120),
    Sub("ms_bpt", s_bpt, c_bpt, 2500, rule="at least four vertices with different values", shard=150),
    Sub("regression", s_reg, c_reg, 2500, rule="altitudes that are not increasing", shard=250),
]
