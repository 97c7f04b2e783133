"""P06: graph, index and contour accumulators against direct enumeration."""
import numpy as np
import higra as hg
from vlib.core import Sub, req, Skip
from vlib import gen as G
from vlib.ref import T, mat_edges
from vlib.hgc import mk_tree, mk_graph
from props.p05 import ACC, combine, compare, wdata, mkarr, bounded


def acc_fn(f, w, *args):
    return f(*args)


# first/last/argmin depend on the enumeration order of incident edges: only index order independent facts are checked
def check(got, lists, acc, w, what, ordered, c):
    dt, sh = w.dtype, w.shape[1:]
    got = np.asarray(got)
    req(got.shape[0] == len(lists), what, "size", got.shape, len(lists))
    if acc in ("first", "last", "argmin", "argmax") and not ordered:
        for i, l in enumerate(lists):
            if not l:
                if acc in ("argmin", "argmax"):
                    req(np.all(got[i] == np.array(-1).astype(dt)), what, "empty argmin/argmax", i, got[i])
                continue
            if acc in ("first", "last"):
                req(any(np.array_equal(got[i], w[j]) for j in l), what, "value of no element", i, got[i].tolist())
            else:
                req(np.all((0 <= got[i]) & (got[i] < len(l))) and np.all(got[i] == got[i].ravel()[:1]), what, "argmin/argmax out of range", i, got[i].tolist())
        return
    exp = [combine(acc, [w[j] for j in l], dt, sh) for l in lists]
    if not bounded(exp):
        raise Skip()
    compare(got, exp, dt, what, c)


def s_graph(draw):
    g = G.graph(draw, 8, 1, 10, connected=draw(G.st.booleans()), loops=draw(G.st.booleans()))
    acc = G.choice(draw, ACC)
    edges = draw(G.st.booleans())
    return {"g": g, "acc": acc, "edges": edges, "w": wdata(draw, len(g["s"]) if edges else g["n"], acc),
            "opt": draw(G.st.booleans())}


def c_graph(c, ctx):
    g = c["g"]
    gr = mk_graph(g)
    w = mkarr(c["w"])
    w0 = w.copy()
    E = mat_edges(g)
    if c["edges"]:
        lists = [[k for k, (a, b) in enumerate(E) if v in (a, b)] for v in range(g["n"])]
        got = acc_fn(hg.accumulate_graph_edges, w, gr, w, getattr(hg.Accumulators, c["acc"]))
    else:
        lists = [[(b if a == v else a) for (a, b) in E if v in (a, b)] for v in range(g["n"])]
        got = acc_fn(hg.accumulate_graph_vertices, w, gr, w, getattr(hg.Accumulators, c["acc"]))
    check(got, lists, c["acc"], w, "accumulate_graph_%s %s" % ("edges" if c["edges"] else "vertices", c["acc"]), False, c)
    req(np.array_equal(w, w0), "input modified")
    ctx.ev(c["acc"])
    return any(len(l) > 1 for l in lists)


def s_at(draw):
    n = draw(G.st.integers(0, G.sz(25)))
    k = draw(G.st.integers(1, G.choice(draw, [2, 8, G.sz(8)])))
    neg = draw(G.st.integers(0, 2))
    idx = [x - neg for x in G.seq(draw, n, k + neg)]
    if neg < 2:
        idx = [max(x, -1) for x in idx]
    acc = G.choice(draw, ACC)
    return {"idx": idx, "acc": acc, "w": wdata(draw, n, acc), "dt": G.choice(draw, ["int64", "int32", "int8"])}


def c_at(c, ctx):
    idx = np.array(c["idx"], dtype=c["dt"])
    w = mkarr(c["w"])
    m = max([-1] + c["idx"]) + 1
    lists = [[j for j, x in enumerate(c["idx"]) if x == i] for i in range(m)]
    got = acc_fn(hg.accumulate_at, w, idx, w, getattr(hg.Accumulators, c["acc"]))
    check(got, lists, c["acc"], w, "accumulate_at " + c["acc"], True, c)
    ctx.ev(c["acc"])
    return any(len(l) > 1 for l in lists)


def s_cont(draw):
    p = G.tree(draw, 9, 9, big=30)
    n = G.num_leaves(p)
    g = G.graph(draw, n, n, 10, connected=draw(G.st.booleans()), loops=draw(G.st.booleans()))
    if draw(G.st.integers(0, 15)) == 0:     # a graph that is not the one of the leaves
        g["n"] += len(p)
        g["s"].append(g["n"] - 1)
        g["t"].append(0)
    acc = G.choice(draw, ACC)
    return {"p": p, "g": g, "acc": acc, "w": wdata(draw, len(p), acc), "mode": draw(G.st.integers(0, 2)),
            "link": draw(G.st.booleans())}


def c_cont(c, ctx):
    r = T(c["p"])
    g = c["g"]
    t = mk_tree(c["p"], c["mode"])
    gr = mk_graph(g)
    w = mkarr(c["w"])
    lists = []
    if g["n"] > r.n:
        try:
            hg.accumulate_on_contours(t, w, getattr(hg.Accumulators, c["acc"]), gr)
        except (RuntimeError, ValueError, TypeError, IndexError):
            ctx.ev("too large graph rejected")
            return False
        req(False, "accumulate_on_contours: a graph with more vertices than the tree has nodes was accepted")
    for a, b in mat_edges(g):
        lists.append([i for i in range(r.n) if len({a, b} & r.leaves_of[i]) == 1 and a != b])
    if not lists:
        got = hg.accumulate_on_contours(t, w, getattr(hg.Accumulators, c["acc"]), gr)
        req(np.asarray(got).shape[0] == 0, "edgeless graph", got)
        return False
    if c["link"]:
        hg.CptHierarchy.link(t, gr)
        got = hg.accumulate_on_contours(t, w, getattr(hg.Accumulators, c["acc"]))
    else:
        got = hg.accumulate_on_contours(t, w, getattr(hg.Accumulators, c["acc"]), gr)
    check(got, lists, c["acc"], w, "accumulate_on_contours " + c["acc"], False, c)
    ctx.ev(c["acc"])
    return any(len(l) > 2 for l in lists)


SUBTESTS = [
    Sub("graph", s_graph, c_graph, 2500, rule="a vertex with at least 2 incident edges", shard=300),
    Sub("at", s_at, c_at, 2000, rule="an index carried by at least 2 elements", shard=300),
    Sub("contours", s_cont, c_cont, 2000, rule="an edge crossing the contour of more than 2 nodes", shard=300),
]
