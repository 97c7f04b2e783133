"""P01: undirected graphs against an edge-list model (stateful, model-based)."""
import numpy as np
import higra as hg
from vlib.core import Sub, req
from vlib import gen as G


class Model:
    def __init__(self, n):
        self.n = n
        self.e = []  # (s, t) with s <= t, or None when removed

    def inc(self, v):
        return [i for i, e in enumerate(self.e) if e is not None and v in e]


def s_hist(draw):
    n0 = draw(G.st.integers(0, 5))
    kind = draw(G.st.integers(0, 1))
    ops = []
    n, m = n0, 0
    for _ in range(draw(G.st.integers(1, 30))):
        k = draw(G.st.integers(0, 11))
        if k == 0 or n == 0:
            if k == 1:
                c = draw(G.st.integers(0, 3))
                ops.append(["add_vertices", c])
                n += c
            else:
                ops.append(["add_vertex"])
                n += 1
        elif k in (1, 2, 3):
            ops.append(["add_edge", draw(G.st.integers(0, n - 1)), draw(G.st.integers(0, n - 1))])
            m += 1
        elif k in (4, 5):
            c = draw(G.st.integers(1, 4))
            a = G.seq(draw, c, n)
            b = G.seq(draw, c, n)
            ops.append(["add_edges", a, b, draw(G.st.integers(0, 3))])
            m += c
        elif k in (6, 7, 8) and m:
            ops.append(["remove_edge", draw(G.st.integers(0, m - 1))])
        elif k in (9, 10) and m:
            ops.append(["set_edge", draw(G.st.integers(0, m - 1)), draw(G.st.integers(0, n - 1)),
                        draw(G.st.integers(0, n - 1))])
        else:
            ops.append(["snapshot"])
    return {"n": n0, "kind": kind, "ops": ops}


def compare(g, mo, full, ctx):
    req(g.num_vertices() == mo.n, "num_vertices", g.num_vertices(), mo.n)
    req(g.num_edges() == len(mo.e), "num_edges", g.num_edges(), len(mo.e))
    exp = [(-1, -1) if e is None else e for e in mo.e]
    got = [tuple(e) for e in g.edges()]
    # the edge iterator skips nothing documented: it lists every index or only valid ones
    live = [(s, t, i) for i, (s, t) in enumerate(exp) if s >= 0]
    got_live = [x for x in got if x[0] >= 0]
    req(got_live == live, "edges()", got_live, live)
    for i, (s, t) in enumerate(exp):
        e = g.edge_from_index(i)
        req((e[0], e[1], e[2]) == (s, t, i), "edge_from_index", i, e, (s, t))
    if hasattr(g, "sources"):
        s, t = g.edge_list()
        req(s.tolist() == [e[0] for e in exp], "edge_list s", s.tolist())
        req(t.tolist() == [e[1] for e in exp], "edge_list t", t.tolist())
        req(g.sources().tolist() == s.tolist() and g.targets().tolist() == t.tolist(), "sources/targets")
    req(list(g.vertices()) == list(range(mo.n)), "vertices")
    vs = np.arange(mo.n)
    for v in range(mo.n):
        inc = mo.inc(v)
        req(g.degree(v) == len(inc) and g.in_degree(v) == len(inc) and g.out_degree(v) == len(inc), "degree", v,
            g.degree(v), inc)
        oth = sorted((i, mo.e[i][1] if mo.e[i][0] == v else mo.e[i][0]) for i in inc)
        out = [tuple(e) for e in g.out_edges(v)]
        req(all(e[0] == v for e in out), "out_edges source", v, out)
        o = [(e[2], e[1]) for e in out]
        req(sorted(o) == oth, "out_edges", v, out, oth)
        ins = [tuple(e) for e in g.in_edges(v)]
        req(all(e[1] == v for e in ins) and sorted((e[2], e[0]) for e in ins) == oth, "in_edges", v, ins, oth)
        req(sorted(g.adjacent_vertices(v)) == sorted(x for _, x in oth), "adjacent", v)
    if mo.n:
        d = [len(mo.inc(v)) for v in range(mo.n)]
        for f in (g.degree, g.in_degree, g.out_degree):
            req(f(vs).tolist() == d, "degree[]")
    e = g.edge_from_index(0) if exp else None
    if e is not None:
        req(g.source(e) == exp[0][0] and g.target(e) == exp[0][1] and g.index(e) == 0, "source/target/index")


def order_kept(g, mo):
    """undirected_graph with vector lists: incident edges appear in insertion order when nothing was removed"""
    for v in range(mo.n):
        got = [e[2] for e in g.out_edges(v)]
        req(got == sorted(got), "incident order", v, got)


def c_hist(case, ctx):
    g = (hg.UndirectedGraph if case["kind"] == 0 else hg.UndirectedGraphOptimizedDelete)(case["n"])
    mo = Model(case["n"])
    snaps = []
    removed = 0
    mutated = False
    compare(g, mo, True, ctx)
    for op in case["ops"]:
        k = op[0]
        if k == "add_vertex":
            r = g.add_vertex()
            req(r is None or r == mo.n, "add_vertex result", r)
            mo.n += 1
        elif k == "add_vertices":
            g.add_vertices(op[1])
            mo.n += op[1]
        elif k == "add_edge":
            r = g.add_edge(op[1], op[2])
            s, t = min(op[1:]), max(op[1:])
            req(r is None or (r[0], r[1], r[2]) in ((s, t, len(mo.e)), (op[1], op[2], len(mo.e))), "add_edge result", r)
            mo.e.append((s, t))
        elif k == "add_edges":
            dt = [np.int64, np.int32, np.uint8, None][op[3]]
            a, b = (tuple(op[1]), tuple(op[2])) if dt is None else (np.array(op[1], dt), np.array(op[2], dt))
            g.add_edges(a, b)
            for x, y in zip(op[1], op[2]):
                mo.e.append((min(x, y), max(x, y)))
            ctx.ev("bulk")
        elif k == "remove_edge":
            if mo.e[op[1]] is None:
                ctx.ev("remove_removed")
            g.remove_edge(op[1])
            mo.e[op[1]] = None
            removed += 1
        elif k == "set_edge":
            if mo.e[op[1]] is None:
                ctx.ev("revive")
            g.set_edge(op[1], op[2], op[3])
            mo.e[op[1]] = (min(op[2:]), max(op[2:]))
            mutated = True
        else:
            if hasattr(g, "sources"):
                s, t = g.edge_list()
                snaps.append((s, t, s.tolist(), t.tolist()))
        compare(g, mo, False, ctx)
    for s, t, a, b in snaps:
        req(s.tolist() == a and t.tolist() == b, "snapshot changed")
    if case["kind"] == 0 and not removed and not mutated:
        order_kept(g, mo)
    if any(e is not None and e[0] == e[1] for e in mo.e):
        ctx.ev("self_loop")
    if len(set(e for e in mo.e if e)) < len([e for e in mo.e if e]):
        ctx.ev("parallel")
    return len(mo.e) >= 2 and (removed or mutated)


def s_bad(draw):
    g = G.graph(draw, 5, loops=True, connected=False)
    return {"g": g, "which": draw(G.st.integers(0, 12)), "d": draw(G.st.integers(0, 3)), "kind": draw(G.st.integers(0, 1))}


def c_bad(case, ctx):
    """out-of-range indices are rejected and leave the graph unchanged"""
    g = (hg.UndirectedGraph if case["kind"] == 0 else hg.UndirectedGraphOptimizedDelete)(case["g"]["n"])
    mo = Model(case["g"]["n"])
    for s, t in zip(case["g"]["s"], case["g"]["t"]):
        g.add_edge(s, t)
        mo.e.append((min(s, t), max(s, t)))
    n, m, d = mo.n, len(mo.e), case["d"]
    big = n + d
    w = case["which"]
    calls = [lambda: g.add_edge(big, 0), lambda: g.add_edge(0, big), lambda: g.add_edge(-1 - d, 0),
             lambda: g.remove_edge(m + d), lambda: g.set_edge(m + d, 0, 0), lambda: g.edge_from_index(m + d),
             lambda: g.degree(big), lambda: list(g.out_edges(big)), lambda: list(g.in_edges(big)),
             lambda: list(g.adjacent_vertices(big)),
             lambda: g.add_edges(np.array([0, big]), np.array([0, 0])),
             lambda: g.remove_edge(-1 - d),
             lambda: g.set_edge(0, big, 0) if m else g.remove_edge(0)]
    try:
        r = calls[w]()
    except Exception:
        ctx.ev("rejected")
    else:
        req(False, "out-of-range call accepted", w, r)
    if w != 10:
        compare(g, mo, True, ctx)
    return True


SUBTESTS = [
    Sub("history", s_hist, c_hist, 2400, rule="at least two edges and at least one removal or re-targeting"),
    Sub("out_of_range", s_bad, c_bad, 600, rule="every case is an invalid call"),
]
