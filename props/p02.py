"""P02: grid embeddings, regular graphs and edge weighting against coordinate arithmetic."""
import itertools
import numpy as np
import higra as hg
from vlib.core import Sub, req
from vlib import gen as G
from vlib.ref import arr
from vlib.hgc import mk_graph, mk_tree

EMB = {i: getattr(hg, "EmbeddingGrid%dd" % i) for i in range(1, 6)}
REG = {i: getattr(hg, "RegularGraph%dd" % i) for i in range(1, 6)}
MAXS = {1: 20, 2: 8, 3: 5, 4: 4, 5: 3}
SDT = ["int8", "int16", "int32", "int64"]


def s_shape(draw, mind=1, maxd=5):
    d = draw(G.st.integers(mind, maxd))
    sh = [1 + x for x in G.seq(draw, d, G.sz(MAXS[d], d))]
    return sh


def lin(c, sh):
    r = 0
    for x, s in zip(c, sh):
        r = r * s + x
    return r


# ------------------------------------------------------------------ embeddings
def s_emb(draw):
    sh = s_shape(draw)
    d = len(sh)
    pts = [x - 2 for x in G.seq(draw, d * 6, 12)]
    return {"shape": sh, "pts": pts, "dtype": G.choice(draw, SDT), "nd": draw(G.st.integers(0, 1)),
            "as_list": draw(G.st.booleans())}


def c_emb(c, ctx):
    sh = c["shape"]
    d = len(sh)
    e = EMB[d](sh if c["as_list"] else np.array(sh, dtype=np.int64))
    size = int(np.prod(sh))
    req(e.size() == size and e.dimension() == d and list(e.shape()) == sh, "size/shape", e.size(), e.shape())
    coords = list(itertools.product(*[range(s) for s in sh]))
    for i, x in enumerate(coords):
        req(list(np.ravel(e.lin2grid(i))) == list(x), "lin2grid", i, e.lin2grid(i), x)
        if i < 40:
            req(e.grid2lin(list(x)) == i, "grid2lin", x)
            req(e.contains(list(x)), "contains", x)
    ca = np.array(coords, dtype=c["dtype"])
    req(np.array_equal(np.ravel(e.grid2lin(ca)), np.arange(size)), "grid2lin array")
    if size <= 127:
        req(np.array_equal(e.lin2grid(np.arange(size, dtype=c["dtype"])), ca), "lin2grid array")
    req(np.array_equal(e.lin2grid(np.arange(size, dtype=np.int64)), ca), "lin2grid array")
    pts = np.array(c["pts"], dtype=c["dtype"]).reshape((-1, d) if c["nd"] == 0 else (2, 3, d))
    exp = np.all((pts >= 0) & (pts < np.array(sh)), axis=-1)
    got = e.contains(pts)
    req(np.array_equal(np.asarray(got).astype(bool), exp), "contains nd", got, exp)
    for p in pts.reshape(-1, d):
        req(bool(e.contains([int(v) for v in p])) == all(0 <= v < s for v, s in zip(p, sh)), "contains list", p)
    if c["nd"] == 1:
        q = np.abs(pts) % np.array(sh)
        q = q.astype(c["dtype"])
        g = np.asarray(e.grid2lin(q))
        req(g.shape == (2, 3), "grid2lin nd shape", g.shape)
        req(all(g[a, b] == lin(q[a, b].tolist(), sh) for a in range(2) for b in range(3)), "grid2lin nd", g)
    return size > 2 and d > 1


# ------------------------------------------------------------------ regular graphs
def s_reg(draw):
    sh = s_shape(draw)
    d = len(sh)
    k = draw(G.st.integers(0, 5))
    off = []
    b = G.seq(draw, d * k, 7)
    for i in range(k):
        o = tuple(x - 3 if j % 2 == 0 or x < 6 else 5 for j, x in enumerate(b[i * d:(i + 1) * d]))
        o = tuple(max(-3, min(5, v)) for v in o)
        if o not in off:
            off.append(o)
    sym = draw(G.st.booleans())
    if sym:
        o2 = []
        for o in off:
            if any(o):
                m = tuple(-v for v in o)
                for q in (o, m):
                    if q not in o2:
                        o2.append(q)
        off = o2
        r = G.seq(draw, len(off), 256)
        off = [off[i] for i in sorted(range(len(off)), key=lambda i: (r[i], i))]
    return {"shape": sh, "off": [list(o) for o in off], "sym": sym, "how": draw(G.st.integers(0, 3))}


def nbrs(sh, off):
    coords = list(itertools.product(*[range(s) for s in sh]))
    res = []
    for x in coords:
        l = []
        for o in off:
            y = [a + b for a, b in zip(x, o)]
            if all(0 <= v < s for v, s in zip(y, sh)):
                l.append(lin(y, sh))
        res.append(l)
    return res


def check_implicit(g, sh, off, nb):
    n = int(np.prod(sh))
    req(g.num_vertices() == n, "num_vertices", g.num_vertices(), n)
    req(list(g.vertices()) == list(range(n)), "vertices")
    for v in range(n):
        e = sorted(nb[v])
        o = [tuple(x)[:2] for x in g.out_edges(v)]
        req(all(x[0] == v for x in o) and sorted(x[1] for x in o) == e, "out_edges", v, o, e)
        i = [tuple(x)[:2] for x in g.in_edges(v)]
        req(all(x[1] == v for x in i) and sorted(x[0] for x in i) == e, "in_edges", v, i, e)
        a = list(g.adjacent_vertices(v))
        req(sorted(a) == e, "adjacent", v, a, e)
        req(g.degree(v) == len(e) and g.out_degree(v) == len(e) and g.in_degree(v) == len(e), "degree", v, g.degree(v))


def check_explicit(g, sh, nb):
    n = int(np.prod(sh))
    req(g.num_vertices() == n, "num_vertices", g.num_vertices())
    s, t = g.edge_list()
    got = sorted(tuple(sorted(p)) for p in zip(s.tolist(), t.tolist()))
    exp = sorted((v, w) for v in range(n) for w in nb[v] if v < w)
    req(got == exp, "explicit edges", got, exp)


def c_reg(c, ctx):
    sh, off = c["shape"], c["off"]
    d = len(sh)
    nb = nbrs(sh, off)
    o = np.array(off, dtype=np.int64).reshape((-1, d))
    if c["how"] == 0:
        g = REG[d](tuple(sh), o)
    elif c["how"] == 1:
        g = REG[d](EMB[d](sh), o)
    elif c["how"] == 2 and off:
        g = hg.get_nd_regular_implicit_graph(tuple(sh), off)
    else:
        g = hg.get_nd_regular_implicit_graph(np.array(sh), o)
    req(np.array_equal(np.asarray(g.neighbour_list()).reshape((-1, d)), o), "neighbour_list")
    check_implicit(g, sh, off, nb)
    if c["how"] >= 2:
        req(tuple(hg.CptGridGraph.get_shape(g)) == tuple(sh), "grid shape concept")
        req(hg.get_attribute(g, "no_border_vertex_out_degree") == len(off), "no border degree")
    if c["sym"]:
        check_explicit(g.as_explicit_graph(), sh, nb)
        h = hg.get_nd_regular_graph(tuple(sh), o)
        check_explicit(h, sh, nb)
        req(tuple(hg.CptGridGraph.get_shape(h)) == tuple(sh), "grid shape concept")
        ctx.ev("symmetric")
    return len(off) >= 1 and any(nb)


def s_adj(draw):
    k = G.choice(draw, [4, 8, 6])
    d = 3 if k == 6 else 2
    return {"k": k, "shape": [1 + x for x in G.seq(draw, d, G.sz(9 if d == 2 else 5, d))], "kind": draw(G.st.integers(0, 2))}


def c_adj(c, ctx):
    k, sh = c["k"], c["shape"]
    d = len(sh)
    if k == 8:
        off = [o for o in itertools.product((-1, 0, 1), repeat=2) if any(o)]
    else:
        off = [o for o in itertools.product((-1, 0, 1), repeat=d) if sum(map(abs, o)) == 1]
    nb = nbrs(sh, off)
    cv = [tuple, list, np.array][c["kind"]]
    g = getattr(hg, "get_%d_adjacency_implicit_graph" % k)(cv(sh))
    check_implicit(g, sh, off, nb)
    h = getattr(hg, "get_%d_adjacency_graph" % k)(cv(sh))
    check_explicit(h, sh, nb)
    for x in (g, h):
        req(tuple(hg.CptGridGraph.get_shape(x)) == tuple(sh), "grid shape")
        req(hg.get_attribute(x, "no_border_vertex_out_degree") == k, "no border degree")
    return all(s > 1 for s in sh)


# ------------------------------------------------------------------ masks
def s_mask(draw):
    d = draw(G.st.integers(1, 4))
    sh = [1 + x for x in G.seq(draw, d, G.sz(5 if d < 3 else 3, d))]
    n = int(np.prod(sh))
    return {"shape": sh, "v": [x - 2 if x < 3 else x for x in G.seq(draw, n, 6)],
            "dtype": G.choice(draw, ["float64", "int64", "int32", "bool"]),
            "center": [x - 1 for x in G.seq(draw, d, 6)] if draw(G.st.booleans()) else None,
            "lst": draw(G.st.booleans())}


def c_mask(c, ctx):
    m = np.array(c["v"])
    if c["dtype"] == "bool":
        m = m > 0
    m = m.astype(c["dtype"]).reshape(c["shape"])
    cen = c["center"] if c["center"] is not None else [s // 2 for s in c["shape"]]
    exp = sorted(tuple(a - b for a, b in zip(i, cen)) for i in itertools.product(*[range(s) for s in c["shape"]]) if
                 m[i] > 0)
    r = hg.mask_2_neighbours(m.tolist() if c["lst"] else m, c["center"])
    req(sorted(map(tuple, r.tolist())) == exp, "mask_2_neighbours", r.tolist(), exp)
    return len(exp) > 0 and len(c["shape"]) > 1


# ------------------------------------------------------------------ linearize
def s_lin(draw):
    d = draw(G.st.integers(1, 3))
    sh = [1 + x for x in G.seq(draw, d, G.sz(4, d))]
    tr = [1 + x for x in G.seq(draw, draw(G.st.integers(0, 2)), 4)]
    return {"shape": sh, "trail": tr, "flat": draw(G.st.booleans()), "bad": draw(G.st.integers(0, 6)) == 0,
            "graph": draw(G.st.booleans()), "dtype": G.choice(draw, G.ALL_DTYPES)}


def c_lin(c, ctx):
    sh, tr = c["shape"], c["trail"]
    n = int(np.prod(sh))
    tot = n * int(np.prod(tr))
    a = (np.arange(tot) % 120).astype(c["dtype"])
    full = a.reshape(sh + tr)
    flat = a.reshape([n] + tr)
    kw = {"shape": tuple(sh)}
    if c["graph"]:
        off = [[0] * len(sh)]
        off[0][0] = 1
        kw = {"graph": hg.get_nd_regular_graph(tuple(sh), np.array([off[0], [-x for x in off[0]]]))}
    if c["bad"]:
        b = np.zeros([n + 1] + tr, dtype=c["dtype"])
        for f in (hg.linearize_vertex_weights, hg.delinearize_vertex_weights):
            # n + 1 first: neither a prefix nor the product
            if list(b.shape[:len(sh)]) == sh:
                return False
            try:
                f(b, **kw)
            except ValueError:
                continue
            req(False, "incompatible shape accepted", f.__name__)
        return False
    r = hg.linearize_vertex_weights(full, **kw)
    req(r.shape == flat.shape and np.array_equal(r, flat) and r.dtype == full.dtype, "linearize", r.shape)
    if list(flat.shape[:len(sh)]) != sh:  # otherwise ambiguous
        r = hg.linearize_vertex_weights(flat, **kw)
        req(r.shape == flat.shape and np.array_equal(r, flat), "linearize flat", r.shape)
        r = hg.delinearize_vertex_weights(flat, **kw)
        req(r.shape == full.shape and np.array_equal(r, full), "delinearize", r.shape)
    r = hg.delinearize_vertex_weights(full, **kw)
    req(r.shape == full.shape and np.array_equal(r, full), "delinearize full", r.shape)
    return tot > 1 and len(sh) > 1


# ------------------------------------------------------------------ weight_graph
SCAL = ["mean", "min", "max", "source", "target"]
VECT = ["L0", "L1", "L2", "L_infinity", "L2_squared"]


def s_wg(draw):
    f = G.choice(draw, SCAL + VECT)
    if draw(G.st.booleans()):
        sh = [1 + x for x in G.seq(draw, 2, G.sz(5, 2))]
        g = {"shape": sh, "k": G.choice(draw, [4, 8])}
        n = sh[0] * sh[1]
    elif draw(G.st.integers(0, 3)) == 0:
        g = {"parents": G.tree(draw, 6, 5)}
        n = len(g["parents"])
    else:
        g = G.graph(draw, 8, 1, 8, connected=False, loops=True)
        n = g["n"]
    ch = draw(G.st.integers(1, 4)) if f in VECT and draw(G.st.booleans()) else None
    w = G.weights(draw, n, channels=ch)
    if w["dtype"].startswith("float") and draw(G.st.booleans()):
        w["v"] = [x / 3 for x in w["v"]]
    return {"g": g, "f": f, "w": w, "img": draw(G.st.booleans())}


def c_wg(c, ctx):
    gd = c["g"]
    w = arr(c["w"])
    if "shape" in gd:
        g = getattr(hg, "get_%d_adjacency_graph" % gd["k"])(gd["shape"])
        wi = w.reshape(list(gd["shape"]) + list(w.shape[1:])) if c["img"] else w
    elif "parents" in gd:
        g = mk_tree(gd["parents"])
        wi = w
    else:
        g = mk_graph(gd)
        wi = w
    r = hg.weight_graph(g, wi, getattr(hg.WeightFunction, c["f"]))
    if "parents" in gd:
        m = len(gd["parents"]) - 1
        s, t = np.arange(m), np.array(gd["parents"][:m], dtype=np.int64)
    else:
        s, t = g.edge_list()
    a, b = w[s].astype(np.float64), w[t].astype(np.float64)
    f = c["f"]
    if f in SCAL:
        exp = {"mean": (a + b) / 2, "min": np.minimum(a, b), "max": np.maximum(a, b), "source": a, "target": b}[f]
    else:
        if a.ndim == 1:
            a, b = a[:, None], b[:, None]
        dd = np.abs(a - b)
        exp = {"L0": np.any(dd != 0, axis=1), "L1": dd.sum(axis=1),
               "L2": np.sqrt((dd ** 2).sum(axis=1)), "L_infinity": dd.max(axis=1) if len(dd) else np.zeros(0),
               "L2_squared": (dd ** 2).sum(axis=1)}[f]
    r = np.asarray(r)
    req(r.shape == (len(s),), "weight_graph shape", r.shape, f)
    req(np.allclose(r.astype(np.float64), exp, rtol=1e-6, atol=1e-9), "weight_graph", f, r.tolist(), np.asarray(exp).tolist())
    ctx.ev(f)
    return len(s) > 1


SUBTESTS = [
    Sub("embedding", s_emb, c_emb, 1200, rule="at least 3 points and 2 dimensions"),
    Sub("regular_graph", s_reg, c_reg, 3000, rule="some vertex has a neighbour"),
    Sub("pixel_adjacency", s_adj, c_adj, 600, rule="no dimension of size 1"),
    Sub("mask", s_mask, c_mask, 1500, rule="non-empty neighbourhood, at least 2 dimensions"),
    Sub("linearize", s_lin, c_lin, 1500, rule="at least 2 grid dimensions"),
    Sub("weight_graph", s_wg, c_wg, 4000, rule="at least two edges"),
]
