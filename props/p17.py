"""P17: region attributes against direct measurement of the regions."""
import numpy as np
import higra as hg
from vlib.core import Sub, req, Skip
from vlib import gen as G
from vlib.ref import T, arr, mat_edges
from vlib.hgc import mk_graph, mk_tree


def world(draw, loops=False, max_leaves=9, kinds=("grid", "graph", "graph", "rag", "rag")):
    """a tree and its leaf graph, which may be an image or a region adjacency graph"""
    kind = G.choice(draw, kinds)
    p = G.tree(draw, max_leaves, 8, big=25)
    nl = G.num_leaves(p)
    g = {"kind": kind, "n": nl}
    if kind == "grid":
        fs = [k for k in range(1, nl + 1) if nl % k == 0]
        h = G.choice(draw, fs)
        g["sh"] = [h, nl // h]
        g["adj"] = G.choice(draw, [4, 8])
    else:
        e = G.graph(draw, nl, nl, 9, connected=draw(G.st.integers(0, 3)) > 0)
        g["s"], g["t"] = e["s"], e["t"]
        if kind == "rag":
            g["sizes"] = [1 + x for x in G.seq(draw, nl, 3)]
            g["par"] = G.seq(draw, len(g["s"]), 3)
            g["two"] = draw(G.st.integers(0, 3)) == 0
    return {"p": p, "g": g, "ch": draw(G.st.integers(0, 2)), "nd": draw(G.st.booleans())}


class W:
    """tree + leaf graph + reference areas, lengths and perimeters"""

    def __init__(self, c):
        g = c["g"]
        n = g["n"]
        self.r = T(c["p"])
        self.tree = mk_tree(c["p"], c["ch"])
        self.shape = None
        self.pre = None
        if g["kind"] == "grid":
            f = hg.get_4_adjacency_graph if g["adj"] == 4 else hg.get_8_adjacency_graph
            self.graph = f(g["sh"])
            s, t = self.graph.edge_list()
            self.E = list(zip(s.tolist(), t.tolist()))
            self.shape = tuple(g["sh"])
            self.area = [1.0] * n
            self.length = [1.0] * len(self.E)
            self.perimeter = [float(g["adj"])] * n
        elif g["kind"] == "graph":
            self.graph = mk_graph(g)
            self.E = mat_edges(g)
            self.area = [1.0] * n
            self.length = [1.0] * len(self.E)
            self.perimeter = [float(sum((a == v) + (b == v) for a, b in self.E)) for v in range(n)]
        else:
            lab, first, PE = [], [], []
            for v in range(n):
                first.append(len(lab))
                for k in range(g["sizes"][v]):
                    if k:
                        PE.append((len(lab) - 1, len(lab)))
                    lab.append(v)
            for k, (a, b) in enumerate(mat_edges(g)):
                for j in range(1 + g["par"][k]):
                    PE.append((first[a] + (k + j) % g["sizes"][a], first[b] + j % g["sizes"][b]))
            pre = hg.UndirectedGraph(len(lab))
            if PE:
                pre.add_edges(np.array([e[0] for e in PE]), np.array([e[1] for e in PE]))
            self.pre, self.PE = pre, PE
            self.graph = hg.make_region_adjacency_graph_from_labelisation(pre, np.array(lab))
            if g["two"]:  # a trivial second level: rag of a rag
                self.mid = self.graph
                self.graph = hg.make_region_adjacency_graph_from_labelisation(self.mid, np.arange(self.mid.num_vertices()))
            s, t = self.graph.edge_list()
            self.E = list(zip(s.tolist(), t.tolist()))
            d = {}
            for a, b in PE:
                x, y = lab[a], lab[b]
                if x != y:
                    d[(min(x, y), max(x, y))] = d.get((min(x, y), max(x, y)), 0.0) + 1
            # regions are visited in vertex order: region i is label i (checked below)
            vm = np.asarray(hg.CptRegionAdjacencyGraph.get_vertex_map(self.graph)).tolist()
            if g["two"]:
                vm1 = np.asarray(hg.CptRegionAdjacencyGraph.get_vertex_map(self.mid)).tolist()
                vm = [vm[x] for x in vm1]
            if self.graph.num_vertices() != n:
                raise Skip()
            inv = {}
            for v, x in zip(vm, lab):
                inv[v] = x
            self.area = [float(sum(1 for v in vm if v == i)) for i in range(n)]
            self.length = [d[(min(inv[a], inv[b]), max(inv[a], inv[b]))] for a, b in self.E]
            self.perimeter = [sum(l for (a, b), l in zip(self.E, self.length) if v in (a, b)) for v in range(n)]
            self.vm = vm
        if len(c["p"]) > 1:
            hg.CptHierarchy.link(self.tree, self.graph)
        self.leaf_sets = [sorted(x) for x in self.r.leaves_of]

    def vshape(self, a, nd):
        return a.reshape(self.shape + a.shape[1:]) if (self.shape and nd) else a

    def reg_sum(self, v):
        v = np.asarray(v, dtype=np.float64)
        return np.array([v[s].sum(axis=0) for s in self.leaf_sets])

    def contour(self, per, length):
        """perimeter of each region: the perimeter of its leaves minus twice the length of its inner edges"""
        res = []
        for s in self.r.leaves_of:
            res.append(sum(per[v] for v in s) - 2 * sum(l for (a, b), l in zip(self.E, length) if a in s and b in s))
        return np.array(res, dtype=np.float64)

    def lca(self):
        return [self.r.lca(a, b) for a, b in self.E]

    def frontier(self, length):
        res = np.zeros(self.r.n)
        for n, l in zip(self.lca(), length):
            res[n] += l
        return res


def close(got, exp, what, mask=None, tol=1e-9):
    got = np.asarray(got)
    exp = np.asarray(exp)
    req(got.shape == exp.shape, what, "shape", got.shape, exp.shape)
    g, e = got.astype(np.float64), exp.astype(np.float64)
    if mask is not None:
        g, e = g[mask], e[mask]
    req(np.allclose(g, e, rtol=tol, atol=tol, equal_nan=True), what, "got", g.tolist(), "expected", e.tolist())


def lw(draw, n, dts=("float64", "float64", "int32", "int64", "uint8", "float32", "int8"), hi=None):
    dt = G.choice(draw, dts)
    hi = hi or (60 if dt in ("float64", "int64") else G.choice(draw, [6, 60, 120]))
    return {"dtype": dt, "v": [x * (0.5 if dt.startswith("float") else 1) for x in G.seq(draw, n, hi)]}


def nedges(g):
    if g["kind"] == "grid":
        h, w = g["sh"]
        return h * (w - 1) + w * (h - 1) + (2 * (h - 1) * (w - 1) if g["adj"] == 8 else 0)
    return len(g["s"])


def cyc(l, n, dt, pos=0):
    return np.array([(l[i % len(l)] + pos) for i in range(n)]).astype(dt) if l else np.zeros(n, dtype=dt)


# ------------------------------------------------------------------ area, volume
def s_area(draw):
    c = world(draw)
    n = len(c["p"])
    c["va"] = lw(draw, c["g"]["n"]) if draw(G.st.booleans()) else None
    dts = G.ALL_DTYPES
    a = G.increasing_altitudes(draw, c["p"], levels=G.choice(draw, [2, 5, 30]), dtypes=dts, zero_leaves=draw(G.st.booleans()))
    if a["dtype"].startswith("uint"):
        a["v"] = [max(0, x) for x in a["v"]]
    m = max(a["v"])
    k = draw(G.st.integers(0, 3))
    if k == 1:
        a["v"] = [m - x for x in a["v"]]
    elif k == 2:
        a["v"] = G.seq(draw, n, 90)
    if a["dtype"] in ("int8", "uint8") and max(a["v"]) > 120:
        a["v"] = [x % 120 for x in a["v"]]
    if k == 3 and a["dtype"] == "int8":
        a["v"] = [x % 200 - 100 for x in a["v"]]
    c["a"] = a
    c["lv"] = lw(draw, c["g"]["n"], dts=("float64",)) if draw(G.st.booleans()) else None
    c["area"] = draw(G.st.booleans())
    return c


def c_area(c, ctx):
    w = W(c)
    r = w.r
    if c["va"] is None:
        got = hg.attribute_area(w.tree)
        va = w.area if r.n > 1 else [1.0]
    else:
        v = arr(c["va"])
        got = hg.attribute_area(w.tree, w.vshape(v, c["nd"] and r.n > 1))
        va = v.tolist()
    area = w.reg_sum(va)
    close(got, area, "area (vertex areas %s)" % (c["va"]["dtype"] if c["va"] else "default"))
    alt = arr(c["a"])
    alt0 = alt.copy()
    av = [float(x) for x in alt.tolist()]
    if c["area"]:
        node_area = w.reg_sum(va)
        kw = {"area": node_area}
    else:
        node_area = w.reg_sum(w.area if r.n > 1 else [1.0])
        kw = {}
    if c["lv"] is not None:
        kw["leaf_volume"] = arr(c["lv"])
    vol = hg.attribute_volume(w.tree, alt, **kw)
    exp = np.zeros(r.n)
    for i in range(r.n):
        if i < r.nl:
            exp[i] = c["lv"]["v"][i] if c["lv"] is not None else 0
            if r.n == 1:
                exp[i] = exp[i]
        else:
            exp[i] = node_area[i] * abs(av[i] - av[r.p[i]]) + sum(exp[x] for x in r.ch[i])
    close(vol, exp, "volume (altitudes %s)" % c["a"]["dtype"])
    req(np.array_equal(alt, alt0), "altitudes modified")
    ctx.ev(c["g"]["kind"])
    return r.n > r.nl + 1


# ------------------------------------------------------------------ frontiers and contours
def s_front(draw):
    c = world(draw)
    m = 60
    c["ew"] = G.seq(draw, 24, G.choice(draw, [3, 20, 60, 120]))
    c["ewd"] = G.choice(draw, ["float64", "float64", "int32", "int64", "uint8", "float32", "int16", "uint16"])
    c["el"] = lw(draw, 24) if draw(G.st.integers(0, 2)) == 0 else None
    c["vp"] = lw(draw, c["g"]["n"]) if draw(G.st.integers(0, 2)) == 0 else None
    c["norm"] = draw(G.st.booleans())
    c["pw"] = draw(G.st.booleans())
    return c


def c_front(c, ctx):
    w = W(c)
    r, E = w.r, w.E
    if r.n == 1:
        raise Skip()
    m = len(E)
    req(np.array_equal(np.asarray(hg.attribute_lca_map(w.tree)), np.array(w.lca(), dtype=np.int64)) or m == 0, "lca map")
    kw, kp = {}, {}
    length, per = w.length, w.perimeter
    if c["el"] is not None:
        el = cyc(c["el"]["v"], m, c["el"]["dtype"])
        kw["edge_length"] = el
        length = el.tolist()
    if c["vp"] is not None:
        vp = arr(c["vp"])
        kp["vertex_perimeter"] = w.vshape(vp, c["nd"])
        per = vp.tolist()
    dt = c["ewd"]
    fl = hg.attribute_frontier_length(w.tree, **kw)
    exp_fl = w.frontier(length)
    if c["el"] is None or np.abs(exp_fl).max() < 120:
        close(fl, exp_fl, "frontier length")
    close(hg.attribute_edge_length(w.graph), w.length, "edge length")
    close(np.asarray(hg.attribute_vertex_area(w.graph)).ravel(), w.area, "vertex area")
    vper = np.asarray(hg.attribute_vertex_perimeter(w.graph))
    if w.shape:
        req(vper.shape == w.shape, "shape of the vertex perimeter", vper.shape)
    close(vper.ravel(), w.perimeter, "vertex perimeter")
    if not w.shape and m:
        l2 = cyc(c["ew"], m, dt)
        close(hg.attribute_vertex_perimeter(w.graph, l2), [sum(l for (a, b), l in zip(E, l2.tolist()) if v in (a, b)) for v in range(r.nl)],
              "vertex perimeter with edge lengths")
    exp_cl = w.contour(per, length)
    cl = hg.attribute_contour_length(w.tree, **kw, **kp)
    close(cl, exp_cl, "contour length")
    # frontier strength
    onpre = w.pre is not None and not c["g"]["two"] and c["pw"] and len(w.PE) != m
    if w.pre is not None:
        ctx.ev("pre graph weights" if onpre else "rag weights")
    if onpre:
        pw = cyc(c["ew"], len(w.PE), dt)
        ews = [0.0] * m
        em = np.asarray(hg.CptRegionAdjacencyGraph.get_edge_map(w.graph)).tolist()
        for k, e in enumerate(em):
            if e >= 0:
                ews[e] += float(pw[k])
        ew = pw
    else:
        ew = cyc(c["ew"], m, dt)
        ews = [float(x) for x in ew.tolist()]
    ew0 = ew.copy()
    fs = np.asarray(hg.attribute_frontier_strength(w.tree, ew))
    req(fs.dtype == ew.dtype, "type of the frontier strength", fs.dtype, ew.dtype)
    base = w.frontier(w.length)
    tot = w.frontier(ews)
    for i in range(r.nl, r.n):
        if base[i] > 0 and dt.startswith("float"):
            req(abs(fs[i] - tot[i] / base[i]) <= 1e-5 * (1 + abs(fs[i])), "frontier strength of node", i, fs[i], tot[i] / base[i])
        elif base[i] > 0:
            req(abs(float(fs[i]) - tot[i] / base[i]) < 1, "frontier strength of node", i, fs[i], tot[i] / base[i])
    # contour strength
    cs = np.asarray(hg.attribute_contour_strength(w.tree, ew, **kw, **kp))
    cwe = w.contour([sum(x for (a, b), x in zip(E, ews) if v in (a, b)) for v in range(r.nl)], ews)
    mask = np.abs(exp_cl) > 1e-6
    exp = np.divide(cwe, exp_cl, where=mask, out=np.zeros(r.n))
    close(cs, exp, "contour strength (%s)" % dt, mask, 1e-5)
    req(np.array_equal(ew, ew0), "edge weights modified")
    # compactness
    area = w.reg_sum(w.area)
    with np.errstate(all="ignore"):
        comp = area / (w.contour(w.perimeter, w.length) ** 2)
    got = np.asarray(hg.attribute_compactness(w.tree, normalize=False))
    mk = w.contour(w.perimeter, w.length) > 0
    close(got, comp, "compactness", mk)
    if mk.all():
        close(hg.attribute_compactness(w.tree), comp / comp.max(), "normalized compactness")
        ctx.ev("normalized compactness")
    ar2 = np.arange(1, r.n + 1) * 1.0
    cl2 = np.arange(2, r.n + 2)[::-1] * 0.5
    e2 = ar2 / cl2 ** 2
    close(hg.attribute_compactness(w.tree, area=ar2, contour_length=cl2, normalize=c["norm"]), e2 / (e2.max() if c["norm"] else 1),
          "compactness with explicit measures")
    ctx.ev(c["g"]["kind"])
    return r.n > r.nl + 1 and m > 2


# ------------------------------------------------------------------ vertex values
def s_val(draw):
    c = world(draw)
    n = c["g"]["n"]
    ch = G.choice(draw, [None, None, 1, 2, 3])
    dt = G.choice(draw, G.ALL_DTYPES)
    v = G.seq(draw, n * (ch or 1), 100)
    if not dt.startswith("uint") and draw(G.st.booleans()):
        v = [x - 50 for x in v]
    if dt.startswith("float"):
        v = [x / 2 for x in v]
    c["w"] = {"dtype": dt, "v": v}
    if ch:
        c["w"]["c"] = ch
    if draw(G.st.integers(0, 5)) == 0:
        c["w"]["layout"] = G.integer(draw, 1, 3)
    c["gamma"] = G.choice(draw, [0, 0.5, 1, 3.25])
    c["area"] = draw(G.st.integers(0, 3)) == 0
    c["linked"] = draw(G.st.integers(0, 3)) > 0
    return c


def c_val(c, ctx):
    w = W(c)
    r = w.r
    if r.n == 1:
        raise Skip()
    v = arr(c["w"])
    v0 = v.copy()
    f = v.astype(np.float64)
    if w.shape == v.shape:  # documented ambiguity between channels and image shape
        raise Skip()
    vs = w.vshape(v, c["nd"])
    area = w.reg_sum(w.area)
    kw = {}
    if c["area"]:
        area = np.arange(1, r.n + 1) * 0.5
        kw["area"] = area
    mean = w.reg_sum(f) / (area.reshape((-1, 1)) if f.ndim == 2 else area)
    got = hg.attribute_mean_vertex_weights(w.tree, vs, **kw)
    close(got, mean, "mean vertex weights")
    # gaussian model
    m, va = hg.attribute_gaussian_region_weights_model(w.tree, vs)
    sets = w.leaf_sets
    em = np.array([f[s].mean(axis=0) for s in sets])
    ev = []
    for s in sets:
        d = f[s] - f[s].mean(axis=0)
        ev.append((d * d).mean() if f.ndim == 1 else d.T @ d / len(s))
    ev = np.array(ev)
    tol = 2e-3 if c["w"]["dtype"] == "float32" else 1e-8
    close(m, em, "gaussian model: mean", None, tol)
    req(np.asarray(va).shape == ev.shape, "shape of the variance", np.asarray(va).shape, ev.shape)
    req(np.allclose(va, ev, rtol=tol, atol=tol * 5000), "gaussian model: variance", np.asarray(va).tolist(), ev.tolist())
    # Mumford-Shah energy
    if c["w"]["dtype"] != "float32":
        e = hg.attribute_piecewise_constant_Mumford_Shah_energy(w.tree, vs, c["gamma"])
        tr = ev if ev.ndim == 1 else np.trace(ev, axis1=1, axis2=2)
        exp = tr * w.reg_sum(w.area) + c["gamma"] * w.contour(w.perimeter, w.length)
        close(e, exp, "Mumford-Shah energy", None, 1e-7)
    if not c["linked"]:
        t2 = mk_tree(c["p"], c["ch"])
        m2, v2 = hg.attribute_gaussian_region_weights_model(t2, v)
        close(m2, em, "mean without leaf graph", None, tol)
    req(np.array_equal(v, v0), "vertex weights modified")
    ctx.ev(c["g"]["kind"])
    return r.n > r.nl + 1


# ------------------------------------------------------------------ image geometry
def s_geo(draw):
    return world(draw, kinds=("grid",), max_leaves=16)


def c_geo(c, ctx):
    w = W(c)
    r = w.r
    if r.n == 1:
        raise Skip()
    h, wd = w.shape
    co = np.asarray(hg.attribute_vertex_coordinates(w.graph))
    exp = np.array([[[i, j] for j in range(wd)] for i in range(h)])
    if not (h, wd) == (h * wd, 2):  # (documented ambiguity of delinearization)
        req(co.shape == exp.shape and np.array_equal(co, exp), "vertex coordinates", co.tolist())
        I = np.asarray(hg.attribute_moment_of_inertia(w.tree))
        for i, s in enumerate(w.leaf_sets):
            p = np.array([[k // wd, k % wd] for k in s], dtype=np.float64)
            d = p - p.mean(axis=0)
            e = (d * d).sum() / len(s) ** 2
            req(abs(I[i] - e) < 1e-6 * (1 + e), "moment of inertia of node", i, I[i], e)
    return r.n > r.nl + 1 and min(h, wd) > 1


SUBTESTS = [
    Sub("area", s_area, c_area, 1500, rule="at least 2 inner nodes", shard=200),
    Sub("contours", s_front, c_front, 1500, rule="at least 2 inner nodes and 3 edges", shard=100),
    Sub("values", s_val, c_val, 1500, rule="at least 2 inner nodes", shard=150),
    Sub("geometry", s_geo, c_geo, 800, rule="at least 2 inner nodes in an image of several rows and columns", shard=200),
]
