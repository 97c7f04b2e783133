"""P16: conversions between graphs, cuts, partitions and matrices."""
import numpy as np
import higra as hg
from scipy.sparse import csr_matrix, coo_matrix, issparse
from vlib.core import Sub, req, Skip
from vlib import gen as G
from vlib.ref import arr, mat_edges, components, same_partition, UF
from vlib.hgc import mk_graph
from props.p15 import base, mk_base


# ------------------------------------------------------------------ cuts and labels
def s_cut(draw):
    g = base(draw)
    dt = G.choice(draw, G.INT_DTYPES)
    l = {"dtype": dt, "v": G.seq(draw, g["n"], G.choice(draw, [1, 2, 3, 6]))}
    if draw(G.st.integers(0, 4)) == 0:
        i = np.iinfo(dt)
        pal = [int(i.max), int(i.min), int(i.max) - 1, 0, 1]
        l["v"] = [pal[x % 5] for x in l["v"]]
    if draw(G.st.integers(0, 5)) == 0:
        l["layout"] = G.integer(draw, 1, 2)
    wd = G.choice(draw, G.ALL_DTYPES)
    return {"g": g, "l": l, "w": G.seq(draw, 16, G.choice(draw, [2, 3, 5])), "wd": wd, "neg": draw(G.st.booleans()),
            "nd": draw(G.st.booleans())}


def c_cut(c, ctx):
    gr, E = mk_base(c["g"])
    n = c["g"]["n"]
    v = c["l"]["v"]
    lab = arr(c["l"])
    if c["g"]["kind"] == "grid" and c["nd"]:
        lab = lab.reshape(c["g"]["sh"])
    cut = np.asarray(hg.labelisation_2_graph_cut(gr, lab))
    req(cut.shape == (len(E),), "cut size", cut.shape)
    for k, (a, b) in enumerate(E):
        req(bool(cut[k] != 0) == (v[a] != v[b]), "edge", k, (a, b), "labels", v[a], v[b], "cut value", cut[k])
    # round trip
    comp = components(n, [(a, b) for a, b in E if v[a] == v[b]])
    back = np.asarray(hg.graph_cut_2_labelisation(gr, cut)) if len(E) else None
    if back is not None:
        if c["g"]["kind"] == "grid":
            req(back.shape == tuple(c["g"]["sh"]), "shape of the labelisation", back.shape)
        req(same_partition(back, comp), "cut of labels", v, "relabelled as", back.tolist(), "components", comp)
        req(np.array_equal(np.asarray(hg.labelisation_2_graph_cut(gr, back)) != 0, cut != 0), "cut of the labels of a cut")
    # any cut
    val = [c["w"][k % 16] for k in range(len(E))]
    if not c["wd"].startswith("uint") and c["neg"]:
        val = [-x if k % 3 == 1 else x for k, x in enumerate(val)]
    if c["wd"].startswith("float"):
        val = [x * (1e-300 if c["wd"] == "float64" and k % 2 else 0.25) for k, x in enumerate(val)]
    w = np.array(val, dtype=c["wd"])
    w0 = w.copy()
    lab2 = np.asarray(hg.graph_cut_2_labelisation(gr, w))
    comp2 = components(n, [e for e, x in zip(E, w0.tolist()) if x == 0])
    req(same_partition(lab2, comp2), "weights", val, "labels", lab2.tolist(), "components", comp2)
    req(np.array_equal(w, w0), "weights modified")
    return len(E) > 1 and 1 < len(set(comp)) < n


# ------------------------------------------------------------------ adjacency matrices
def s_adj(draw):
    g = G.graph(draw, 7, 1, 8, connected=draw(G.st.booleans()), multi=False)
    dt = G.choice(draw, ["float64", "float32", "int32", "int64", "uint8", "int8"])
    v = [x + 1 for x in G.seq(draw, len(g["s"]), G.choice(draw, [2, 9, 100]))]
    if not dt.startswith("uint") and draw(G.st.booleans()):
        v = [-x if k % 2 else x for k, x in enumerate(v)]
    if dt.startswith("float"):
        v = [x / 4 for x in v]
    return {"g": g, "w": {"dtype": dt, "v": v}, "ne": G.choice(draw, [0, -5, 120, "inf"]), "def": draw(G.st.booleans()),
            "rm": draw(G.st.integers(0, 12))}


def c_adj(c, ctx):
    g = c["g"]
    n = g["n"]
    gr = mk_graph(g)
    E = mat_edges(g)
    w = arr(c["w"])
    ew = None if c["def"] else w
    wv = [1.0] * len(E) if c["def"] else w.tolist()
    alive = list(range(len(E)))
    if c["rm"] < len(E):
        gr.remove_edge(c["rm"])
        alive.remove(c["rm"])
        ctx.ev("removed edge")
    ne = float("inf") if c["ne"] == "inf" else c["ne"]
    if (not c["def"] and not c["w"]["dtype"].startswith("float") and c["ne"] in ("inf", -5)) or ne in wv:
        ne = 0
    exp = np.full((n, n), ne, dtype=np.float64)
    for k in alive:
        exp[E[k][0], E[k][1]] = exp[E[k][1], E[k][0]] = wv[k]
    A = hg.undirected_graph_2_adjacency_matrix(gr, ew, non_edge_value=ne, sparse=False)
    req(A.shape == (n, n) and np.array_equal(A.astype(np.float64), exp), "dense", A.tolist(), exp.tolist())
    exps = exp.copy()
    exps[exps == ne] = 0
    S = hg.undirected_graph_2_adjacency_matrix(gr, ew)
    req(issparse(S) and np.array_equal(np.asarray(S.todense()).astype(np.float64), exps), "sparse",
        np.asarray(S.todense()).tolist(), exps.tolist())
    # back
    for M, nev, nm in ((A, ne, "dense"), (S, 0, "sparse"), (coo_matrix(exps), 0, "coo"), (np.asfortranarray(A), ne, "fortran")):
        M0 = M.copy()
        g2, w2 = hg.adjacency_matrix_2_undirected_graph(M, non_edge_value=nev)
        s, t = g2.edge_list()
        got = sorted((min(a, b), max(a, b), x) for a, b, x in zip(s.tolist(), t.tolist(), np.asarray(w2).tolist()))
        want = sorted((min(E[k]), max(E[k]), wv[k]) for k in alive)
        req(g2.num_vertices() == n, nm, "vertices", g2.num_vertices(), n)
        req(got == want, nm, "edges", got, "expected", want)
        req(np.asarray(w2).dtype == M.dtype, nm, "type", np.asarray(w2).dtype, M.dtype)
        d = (M != M0)
        req(not (d.nnz if issparse(d) else np.any(d)), nm, "matrix modified")
    for bad in (np.zeros((n, n + 1)), np.zeros((n,)), np.zeros((n, n, 1))):
        try:
            hg.adjacency_matrix_2_undirected_graph(bad)
        except Exception:
            continue
        req(False, "non square matrix accepted", bad.shape)
    if ne != 0:
        try:
            hg.undirected_graph_2_adjacency_matrix(gr, ew, non_edge_value=ne)
        except Exception:
            pass
        else:
            req(False, "sparse matrix with a non zero non edge value")
    return len(alive) > 1


def s_dense(draw):
    """any symmetric matrix, the diagonal being self-loops"""
    n = draw(G.st.integers(1, 6))
    return {"n": n, "v": G.seq(draw, n * n, 4), "dt": G.choice(draw, ["float64", "int32", "uint8", "bool"]), "diag": draw(G.st.booleans()),
            "ne": draw(G.st.integers(0, 2)), "sp": draw(G.st.booleans())}


def c_dense(c, ctx):
    n = c["n"]
    M = np.array(c["v"]).reshape(n, n)
    M = np.triu(M) + np.triu(M, 1).T
    if not c["diag"]:
        M[range(n), range(n)] = c["ne"]
    M = M.astype(c["dt"])
    ne = c["ne"]
    if c["dt"] == "bool":
        ne = 0
    if c["sp"]:
        ne = 0
        g, w = hg.adjacency_matrix_2_undirected_graph(csr_matrix(M))
    else:
        g, w = hg.adjacency_matrix_2_undirected_graph(M, ne)
    s, t = g.edge_list()
    got = sorted((min(a, b), max(a, b), x) for a, b, x in zip(s.tolist(), t.tolist(), np.asarray(w).tolist()))
    want = sorted((i, j, M[i, j].item()) for i in range(n) for j in range(i, n) if M[i, j] != ne)
    req(g.num_vertices() == n and got == want, "edges", got, want)
    return len(want) > 1


# ------------------------------------------------------------------ sub-graphs
def s_sub(draw):
    g = G.graph(draw, 9, 1, 10, connected=draw(G.st.booleans()), loops=draw(G.st.booleans()))
    m = len(g["s"])
    return {"g": g, "e": G.seq(draw, m, 256), "ke": draw(G.st.integers(0, m)),
            "v": G.seq(draw, g["n"], 256), "kv": draw(G.st.integers(0, g["n"])), "rm": draw(G.st.integers(0, 20)),
            "dt": G.choice(draw, ["int64", "int32", "uint8", "uint64"])}


def edges_of(g):
    s, t = g.edge_list()
    return [tuple(sorted(x)) for x in zip(np.asarray(s).tolist(), np.asarray(t).tolist())]


def c_sub(c, ctx):
    g = c["g"]
    n, m = g["n"], len(g["s"])
    gr = mk_graph(g)
    E = [tuple(sorted(e)) for e in mat_edges(g)]
    order = sorted(range(m), key=lambda i: (c["e"][i], i))[:c["ke"]]
    idx = np.array(order, dtype=c["dt"])
    idx0 = idx.copy()
    sub, vm = hg.subgraph(gr, idx, return_vertex_map=True)
    req(sub.num_vertices() == n and edges_of(sub) == [E[i] for i in order], "spanning subgraph", edges_of(sub))
    req(np.array_equal(vm, np.arange(n)), "vertex map of a spanning subgraph", vm.tolist())
    req(edges_of(hg.subgraph(gr, idx)) == [E[i] for i in order], "spanning subgraph without map")
    sub, vm = hg.subgraph(gr, idx, spanning=False, return_vertex_map=True)
    vm = np.asarray(vm).tolist()
    used = sorted({x for i in order for x in E[i]})
    req(sub.num_vertices() == len(used) and sorted(vm) == used, "vertices of the subgraph", vm, used)
    req([tuple(sorted((vm[a], vm[b]))) for a, b in edges_of(sub)] == [E[i] for i in order], "edges of the subgraph")
    sub2 = hg.subgraph(gr, idx, spanning=False)
    req(sub2.num_vertices() == len(used), "subgraph without map")
    req(np.array_equal(idx, idx0), "indices modified")
    # vertex induced
    dead = None
    if c["rm"] < m:
        gr.remove_edge(c["rm"])
        dead = c["rm"]
        ctx.ev("removed edge")
    vs = sorted(range(n), key=lambda i: (c["v"][i], i))[:c["kv"]]
    va = np.array(vs, dtype=c["dt"]) if c["ke"] % 2 else vs
    sub, em = hg.vertex_induced_subgraph(gr, va, return_edge_map=True)
    em = np.asarray(em).tolist()
    req(sub.num_vertices() == len(vs), "vertices of the induced subgraph", sub.num_vertices(), len(vs))
    want = [i for i in range(m) if i != dead and E[i][0] in vs and E[i][1] in vs]
    req(sorted(em) == want, "edge map", em, want)
    req([tuple(sorted((vs[a], vs[b]))) for a, b in edges_of(sub)] == [E[i] for i in em], "edges of the induced subgraph")
    s2 = hg.vertex_induced_subgraph(gr, va)
    req(sorted(tuple(sorted((vs[a], vs[b]))) for a, b in edges_of(s2)) == sorted(E[i] for i in want), "without map")
    for bad in ([n], [-1], [0, 0]):
        try:
            hg.vertex_induced_subgraph(gr, bad)
        except Exception:
            continue
        req(False, "vertex_induced_subgraph accepts", bad)
    return len(order) > 1 and len(want) > 1


# ------------------------------------------------------------------ line graph
def s_line(draw):
    return {"g": G.graph(draw, 8, 1, 10, connected=draw(G.st.booleans())), "p": G.tree(draw, 8, 6), "rm": draw(G.st.integers(0, 20)),
            "ch": draw(G.st.integers(0, 2))}


def c_line(c, ctx):
    from vlib.hgc import mk_tree
    g = c["g"]
    gr = mk_graph(g)
    E = mat_edges(g)
    alive = list(range(len(E)))
    if c["rm"] < len(E):
        gr.remove_edge(c["rm"])
        alive.remove(c["rm"])
    lg = hg.line_graph(gr)
    want = sorted((i, j) for i in alive for j in alive if i < j and set(E[i]) & set(E[j]))
    req(lg.num_vertices() == len(E), "vertices of the line graph", lg.num_vertices())
    req(sorted(edges_of(lg)) == want, "line graph", sorted(edges_of(lg)), want)
    p = c["p"]
    n = len(p)
    lt = hg.line_graph(mk_tree(p, c["ch"]))
    T_ = [{i, p[i]} for i in range(n - 1)]
    want2 = sorted((i, j) for i in range(n - 1) for j in range(i + 1, n - 1) if T_[i] & T_[j])
    req(lt.num_vertices() == n - 1 and sorted(edges_of(lt)) == want2, "line graph of a tree", sorted(edges_of(lt)), want2)
    return len(want) > 1


# ------------------------------------------------------------------ bijection
def s_bij(draw):
    n = draw(G.st.integers(0, 20))
    k = draw(G.st.integers(1, 6))
    a = G.seq(draw, n, k)
    mode = draw(G.st.integers(0, 4))
    pm = G.seq(draw, k, 256)
    perm = sorted(range(k), key=lambda i: (pm[i], i))
    b = [perm[x] for x in a]
    if mode == 1 and n:
        i = draw(G.st.integers(0, n - 1))
        b[i] = draw(G.st.integers(0, k))
    elif mode == 2 and n:  # merge two classes
        b = [min(x, 1) for x in b]
    elif mode == 3:
        b = G.seq(draw, n, k)
    elif mode == 4:
        b = b[:-1]
    return {"a": a, "b": b, "da": G.choice(draw, G.ALL_DTYPES), "db": G.choice(draw, G.ALL_DTYPES), "sh": draw(G.st.integers(0, 2))}


def c_bij(c, ctx):
    a = np.array(c["a"], dtype=c["da"])
    b = np.array(c["b"], dtype=c["db"])
    exp = same_partition(c["a"], c["b"])
    if c["sh"] and a.size % 2 == 0 and a.size and b.size == a.size:
        a = a.reshape((2, -1))
        if c["sh"] == 2:
            b = b.reshape((-1, 2))
            b = np.asfortranarray(b)
            a = np.asfortranarray(a)
    req(bool(hg.is_in_bijection(a, b)) == exp, "is_in_bijection", c["a"], c["b"], not exp)
    req(bool(hg.is_in_bijection(b, a)) == exp, "is_in_bijection is not symmetric", c["a"], c["b"])
    ctx.ev("true" if exp else "false")
    return len(set(c["a"])) > 1


# ------------------------------------------------------------------ graphs of points
def s_pts(draw):
    n = draw(G.st.integers(2, 12))
    d = draw(G.st.integers(1, 3))
    v = G.seq(draw, n * d, 60000)
    dup = draw(G.st.integers(0, 3)) == 0
    if dup:
        v[:d] = v[-d:]
    return {"n": n, "d": d, "v": v, "k": draw(G.st.integers(1, 5)), "sym": draw(G.st.booleans()),
            "type": "complete" if dup else G.choice(draw, ["complete", "knn", "knn+mst", "delaunay", "mst"])}


def c_pts(c, ctx):
    n, d = c["n"], c["d"]
    X = np.array(c["v"], dtype=np.float64).reshape(n, d) / 1000
    D = np.sqrt(((X[:, None, :] - X[None, :, :]) ** 2).sum(axis=2))
    ty = c["type"]
    iu = np.triu_indices(n, 1)
    ds = np.sort(D[iu])
    if c.get("coincident"):
        # coincident points: only the documented connectivity is checked (see known_findings.json, never generated)
        g, _ = hg.make_graph_from_points(X, ty, "max", n_neighbors=min(c["k"], n - 1))
        req(len(set(components(n, edges_of(g)))) == 1, "graph of coincident points is not connected")
        return False
    if ty != "complete" and (np.any(np.diff(ds) < 1e-6) or (len(ds) and ds[0] < 1e-6)):
        raise Skip()  # ties: several valid answers
    if ty.startswith("knn") and c["k"] > n - 1:
        raise Skip()
    if ty == "delaunay" and (d != 2 or n < 4):
        raise Skip()
    sym = "min" if c["sym"] else "max"
    try:
        g, w = hg.make_graph_from_points(X, ty, sym, n_neighbors=c["k"])
    except Exception as e:
        if "Qhull" in type(e).__name__ or "QH" in str(e):
            raise Skip()
        raise
    E = edges_of(g)
    req(g.num_vertices() == n and len(E) == len(w) and len(set(E)) == len(E), "graph size", len(E), len(w))
    for (a, b), x in zip(E, np.asarray(w).tolist()):
        req(abs(x - D[a, b]) <= 1e-6 * (1 + D[a, b]), "weight of", (a, b), x, D[a, b])
    # mst
    mst = set()
    u = UF(n)
    for k in sorted(range(len(iu[0])), key=lambda k: D[iu[0][k], iu[1][k]]):
        a, b = int(iu[0][k]), int(iu[1][k])
        if u.union(a, b):
            mst.add((a, b))
    arcs = {(a, int(b)) for a in range(n) for b in [x for x in np.argsort(D[a], kind="stable") if x != a][:c["k"]]}
    if sym == "min":
        knn = {(min(a, b), max(a, b)) for a, b in arcs if (b, a) in arcs}
    else:
        knn = {(min(a, b), max(a, b)) for a, b in arcs}
    if ty == "complete":
        want = {(i, j) for i in range(n) for j in range(i + 1, n)}
    elif ty == "knn":
        want = knn
    elif ty == "knn+mst":
        want = knn | mst
    elif ty == "mst":
        want = mst
    else:
        want = None
        req(mst <= set(E), "edges of the minimum spanning tree missing from the Delaunay graph", sorted(mst - set(E)))
        req(len(E) <= 3 * n - 3, "too many edges for a triangulation", len(E))
        # an edge is Delaunay iff some circle through its ends contains no other point
        for i in range(n):
            for j in range(i + 1, n):
                lo, hi = -np.inf, np.inf
                m = (X[i] + X[j]) / 2
                dr = np.array([-(X[j] - X[i])[1], (X[j] - X[i])[0]])
                ok = True
                for k in range(n):
                    if k in (i, j):
                        continue
                    den = 2 * np.dot(dr, X[k] - X[i])
                    num = np.dot(X[k] - m, X[k] - m) - np.dot(X[i] - m, X[i] - m)
                    # centre m + t dr must be at least as far from k as from i:  t * den <= num
                    if abs(den) < 1e-9:
                        ok = ok and num > 0
                    elif den > 0:
                        hi = min(hi, num / den)
                    else:
                        lo = max(lo, num / den)
                if ok and hi - lo > 1e-6:
                    req((i, j) in set(E), "Delaunay edge missing", (i, j))
                elif not ok or hi - lo < -1e-6:
                    req((i, j) not in set(E), "not a Delaunay edge", (i, j))
    if want is not None:
        req(set(E) == want, ty, sym, "edges", sorted(E), "expected", sorted(want))
    ctx.ev(ty)
    return n > 3


# ------------------------------------------------------------------ common value types
DTS = ["bool", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64"]


def exact(a, b):
    """all the values of type a are values of type b (64 bit integers: any 64 bit integer type or float64 will do)"""
    if a == b:
        return True
    if a in ("int64", "uint64"):
        return b in ("int64", "uint64", "float64") and not (a == "int64" and b == "uint64")
    return np.can_cast(np.dtype(a), np.dtype(b), "safe")


def s_type(draw):
    n = G.integer(draw, 1, 4)
    return {"d": [G.choice(draw, DTS) for _ in range(n)], "v": G.seq(draw, n * 3, 5), "over": G.integer(draw, 0, 4) == 0}


def c_type(c, ctx):
    arrays = []
    for i, d in enumerate(c["d"]):
        if d == "bool":
            pal = [0, 1, 0, 1, 0]
        elif d.startswith("float"):
            f = np.finfo(d)
            pal = [0, 1.5, float(f.max), float(f.tiny), -1]
        else:
            f = np.iinfo(d)
            pal = [0, 1, int(f.max), int(f.min), int(f.max) - 1]
        arrays.append(np.array([pal[x] for x in c["v"][3 * i:3 * i + 3]], dtype=d))
    if c["over"]:
        t = np.dtype(hg.common_type(*arrays, safety_level="overflow"))
        req(t.kind == "f", "overflow level: not a floating point type", c["d"], t)
        req(all(exact(d, str(t)) for d in c["d"]), "overflow level: loses values", c["d"], t)
        req(t == np.float64 or all(d in ("float32", "bool") for d in c["d"]), "overflow level: not at least 64 bits with integers", c["d"], t)
        r = hg.cast_to_common_type(*arrays, safety_level="overflow")
        req(all(x.dtype == t for x in r), "overflow level: cast", t, [str(x.dtype) for x in r])
        return len(arrays) > 1
    t = np.dtype(hg.common_type(*arrays))
    req(all(exact(d, str(t)) for d in c["d"]), "the common type loses values", c["d"], t)
    integral = [d for d in DTS if not d.startswith("float")]
    if all(d in integral for d in c["d"]):
        req(t.kind in "biu", "integral types have an integral common type", c["d"], t)
        cand = [d for d in integral if all(exact(x, d) for x in c["d"])]
    else:
        cand = [d for d in DTS if all(exact(x, d) for x in c["d"])]
    best = min(np.dtype(d).itemsize for d in cand)
    req(t.itemsize == best, "not a smallest type", c["d"], t, cand)
    # two at a time: the order does not matter
    req(t == np.dtype(hg.common_type(*arrays[::-1])) or t.itemsize == np.dtype(hg.common_type(*arrays[::-1])).itemsize, "order of the arguments", c["d"])
    for a, x, d in zip(arrays, hg.cast_to_common_type(*arrays), c["d"]):
        req(x.dtype == t, "cast_to_common_type", x.dtype, t)
        if d == str(t):
            req(x is a, "an array of the common type is copied")
        if d not in ("int64", "uint64"):
            req(x.tolist() == a.tolist(), "cast_to_common_type changes values", d, t, x, a)
    return len(set(c["d"])) > 1


SUBTESTS = [
    Sub("common_type", s_type, c_type, 1500, rule="several value types", shard=300),
    Sub("cuts", s_cut, c_cut, 2500, rule="several regions, one with several vertices", shard=300),
    Sub("adjacency", s_adj, c_adj, 1200, rule="at least 2 edges", shard=200),
    Sub("matrix", s_dense, c_dense, 1200, rule="at least 2 edges", shard=300),
    Sub("subgraphs", s_sub, c_sub, 2000, rule="at least 2 edges kept by both selections", shard=300),
    Sub("line", s_line, c_line, 1500, rule="line graph with at least 2 edges", shard=300),
    Sub("bijection", s_bij, c_bij, 1500, rule="several labels", shard=300),
    Sub("points", s_pts, c_pts, 800, rule="at least 4 points", shard=100),
]
