"""P13: horizontal cuts."""
import numpy as np
import higra as hg
from vlib.core import Sub, req
from vlib import gen as G
from vlib.ref import T, arr, mat_edges, same_partition, components
from vlib.hgc import mk_graph, mk_tree


def cut_nodes(r, al, a):
    """the maximal nodes of altitude at most a"""
    return [i for i in range(r.n) if al[i] <= a and (r.p[i] == i or al[r.p[i]] > a)]


def base_graph(draw, nl):
    """a connected graph over nl vertices, possibly with an image shape"""
    k = draw(G.st.integers(0, 3))
    if k == 0:
        return {"n": nl, "kind": "grid", "sh": [1, nl] if nl % 2 else [2, nl // 2]}
    g = G.graph(draw, nl, nl, 6)
    g["kind"] = "graph"
    if k == 1:  # leaves are the regions of a larger base graph
        g["kind"] = "rag"
        g["sizes"] = [1 + x for x in G.seq(draw, nl, 3)]
    return g


def mk_base(g):
    """(leaf graph, leaf graph edges, pre graph edges or None, pre graph vertex -> leaf)"""
    n = g["n"]
    if g["kind"] == "grid":
        gr = hg.get_4_adjacency_graph(g["sh"])
        s, t = gr.edge_list()
        return gr, list(zip(s.tolist(), t.tolist())), None, None
    E = mat_edges(g)
    if g["kind"] == "graph":
        return mk_graph(g), E, None, None
    # pre graph: vertex v of the leaf graph becomes a path of sizes[v] vertices
    lab, first, PE = [], [], []
    for v in range(n):
        first.append(len(lab))
        for k in range(g["sizes"][v]):
            if k:
                PE.append((len(lab) - 1, len(lab)))
            lab.append(v)
    for k, (a, b) in enumerate(E):
        PE.append((first[a] + k % g["sizes"][a], first[b] + (k // 2) % g["sizes"][b]))
    pre = hg.UndirectedGraph(len(lab))
    if PE:
        pre.add_edges(np.array([e[0] for e in PE]), np.array([e[1] for e in PE]))
    rag = hg.make_region_adjacency_graph_from_labelisation(pre, np.array(lab, dtype=np.int64))
    vm = hg.CptRegionAdjacencyGraph.construct(rag)["vertex_map"].tolist()
    s, t = rag.edge_list()
    return rag, list(zip(s.tolist(), t.tolist())), PE, vm


def s_explorer(draw):
    p = G.tree(draw, 9, 8, big=60)
    dts = ["float64", "float64", "int32", "uint8", "int64", "float32", "uint16", "int8", "uint32", "uint64", "int16"]
    a = G.increasing_altitudes(draw, p, levels=G.choice(draw, [2, 3, 5, 40]), dtypes=dts)
    if a["dtype"] in ("uint8", "int8") and max(a["v"]) > 127:
        a["dtype"] = "int32"
    elif a["dtype"].startswith("float") and draw(G.st.booleans()):
        a["v"] = [x / 4 for x in a["v"]]
    nl = G.num_leaves(p)
    return {"p": p, "a": a, "g": base_graph(draw, nl), "q": G.seq(draw, 8, 256), "ch": draw(G.st.integers(0, 2)),
            "life": draw(G.st.integers(0, 3)), "wc": G.choice(draw, [0, 0, 2]),
            "wdt": G.choice(draw, G.ALL_DTYPES)}


def c_explorer(c, ctx):
    p = c["p"]
    r = T(p)
    al = c["a"]["v"]
    a = arr(c["a"])
    nl = r.nl
    tree = mk_tree(p, c["ch"])
    gr, E, PE, vm = mk_base(c["g"])
    linked = len(p) > 1
    if linked:
        hg.CptHierarchy.link(tree, gr)
    ex = hg.HorizontalCutExplorer(tree, a)
    # distinct levels, from the root one down to the leaves
    levels = sorted({x for x in al if x <= al[r.root]}, reverse=True)
    exp = [cut_nodes(r, al, x) for x in levels]
    req(ex.num_cuts() == len(levels), "number of cuts", ex.num_cuts(), len(levels))
    req(list(ex.altitude_cuts()) == levels, "altitudes", list(ex.altitude_cuts()), levels)
    req([ex.altitude_cut(i) for i in range(len(levels))] == levels, "altitude_cut")
    nr = [len(x) for x in exp]
    req(list(ex.num_regions_cuts()) == nr, "numbers of regions", list(ex.num_regions_cuts()), nr)
    req([ex.num_regions_cut(i) for i in range(len(nr))] == nr, "num_regions_cut")
    for bad in (-1, len(nr), len(nr) + 5):
        for f in (ex.altitude_cut, ex.horizontal_cut_from_index, ex.num_regions_cut):
            try:
                f(bad)
            except Exception:
                continue
            req(False, "index", bad, "of", len(nr), "accepted by", f.__name__)
    if c["life"] == 0:
        # the explorer must not depend on the variable holding the tree
        tree2 = mk_tree(p, c["ch"])
        ex2 = hg.HorizontalCutExplorer(tree2, a.copy())
        del tree2
        junk = [hg.Tree(np.array([5, 5, 5, 5, 5, 5])) for _ in range(20)]
        ex = ex2
        ctx.ev("tree variable deleted")
        del junk
    if c["wc"] == 0:
        data = a
    else:
        data = np.arange(2 * len(p)).reshape((-1, 2)).astype(c["wdt"])

    def check(cut, i, what):
        nodes = cut.nodes()
        req(sorted(nodes.tolist()) == exp[i], what, "nodes", sorted(nodes.tolist()), "expected cut", i, exp[i])
        req(cut.altitude() == levels[i], what, "altitude", cut.altitude(), levels[i])

    q = c["q"]
    for i in range(len(levels)):
        check(ex.horizontal_cut_from_index(i), i, "from index %d" % i)
    th = [levels[q[0] % len(levels)], levels[q[1] % len(levels)] + .5, -1, levels[0] + 3,
          (levels[q[2] % len(levels)] + levels[q[3] % len(levels)]) / 2]
    for x in th:
        i = next((i for i in range(len(levels)) if levels[i] <= x), len(levels) - 1)
        check(ex.horizontal_cut_from_altitude(x), i, "from altitude %g" % x)
    for k in (nr[q[4] % len(nr)], nr[q[5] % len(nr)] + 1, max(1, nr[q[6] % len(nr)] - 1), nl + 3, 1, 0):
        nk = sorted(set(nr))
        up = [x for x in nk if x >= k]
        lo = [x for x in nk if x <= k]
        for al_, want in ((True, up[0] if up else nk[-1]), (False, lo[-1] if lo else nk[0])):
            cut = ex.horizontal_cut_from_num_regions(k, al_)
            got = sorted(cut.nodes().tolist())
            ok = [i for i in range(len(nr)) if nr[i] == want]
            req(any(got == exp[i] and cut.altitude() == levels[i] for i in ok), "cut with", k, "regions at",
                "least" if al_ else "most", got, [exp[i] for i in ok])
            if k > 0:
                lab = hg.labelisation_horizontal_cut_from_num_regions(tree, a, k, "at_least" if al_ else "at_most")
                lab = np.ravel(lab).tolist()
                e = exp[ok[0]]
                want_l = [next(n for n in r.anc(v) if n in e) for v in range(nl)]
                if PE is not None and linked:
                    want_l = [want_l[x] for x in vm]
                req(same_partition(lab, want_l), "labelisation from", k, "regions", lab, want_l)
    if not linked:
        return False
    # a cut used after the explorer is gone
    i = q[7] % len(levels)
    cut = ex.horizontal_cut_from_index(i)
    if c["life"] == 1:
        del ex
    e = exp[i]
    own = [next(n for n in r.anc(v) if n in e) for v in range(nl)]
    for rag in ((True, False) if PE is not None else (True,)):
        back = PE is not None and rag
        lab = cut.labelisation_leaves(tree, handle_rag=rag)
        rec = cut.reconstruct_leaf_data(tree, data, handle_rag=rag)
        gc_ = cut.graph_cut(tree, handle_rag=rag)
        shape = tuple(c["g"]["sh"]) if c["g"]["kind"] == "grid" else (len(vm) if back else nl,)
        vals = [own[x] for x in vm] if back else own
        req(lab.shape == shape and same_partition(lab, vals), "labels of cut", i, lab.tolist(), vals)
        req(rec.shape == shape + data.shape[1:] and rec.dtype == data.dtype and
            np.array_equal(rec.reshape((-1,) + data.shape[1:]), data[np.array(vals)]), "reconstruction of cut", i, rec.tolist())
        ee = [(vals[x], vals[y]) for x, y in (PE if back else E)]
        req([bool(x) for x in gc_.tolist()] == [x != y for x, y in ee], "graph cut", gc_.tolist(), ee)
    ctx.ev(c["g"]["kind"])
    ctx.ev(c["a"]["dtype"])
    if len(set(al[nl:])) < len(al[nl:]):
        ctx.ev("ties")
    if any(len(x) == 1 for x in r.ch):
        ctx.ev("unary nodes")
    return len(levels) > 2


def s_threshold(draw):
    p = G.tree(draw, 9, 8, big=40)
    dts = ["float64", "float64", "int32", "uint8", "int64", "float32", "uint16", "int8", "uint32", "uint64", "int16"]
    zero = draw(G.st.booleans())
    a = G.increasing_altitudes(draw, p, levels=G.choice(draw, [2, 3, 5]), dtypes=dts, zero_leaves=zero)
    nl = G.num_leaves(p)
    if min(a["v"]) < 0 and a["dtype"].startswith("u"):
        a["dtype"] = "int16"
    sh = draw(G.st.integers(0, 2))
    if sh == 1 and a["dtype"].startswith("float"):
        a["v"] = [x / 4 for x in a["v"]]
    elif sh == 2 and max(a["v"]) > 0:
        i = np.iinfo(a["dtype"]) if not a["dtype"].startswith("float") else np.iinfo("int16")
        f = min(int(i.max), 1 << 40) // max(a["v"])
        a["v"] = [x * f if x > 0 else x for x in a["v"]]
    if a["dtype"] in ("uint8", "int8") and max(a["v"]) > 127:
        a["dtype"] = "int32"
    return {"p": p, "a": a, "q": G.seq(draw, 6, 256), "zero": zero, "ch": draw(G.st.integers(0, 2)),
            "g": base_graph(draw, nl), "link": draw(G.st.booleans()), "off": G.choice(draw, [.5, .25, 1, 300, 70000, -.5, -1])}


def c_threshold(c, ctx):
    p = c["p"]
    r = T(p)
    al = c["a"]["v"]
    a = arr(c["a"])
    a0 = a.copy()
    tree = mk_tree(p, c["ch"])
    nl = r.nl
    gr, E, PE, vm = mk_base(c["g"])
    link = c["link"] and len(p) > 1
    if link:
        hg.CptHierarchy.link(tree, gr)
    shape = tuple(c["g"]["sh"]) if link and c["g"]["kind"] == "grid" else (nl,)
    q = c["q"]
    th = [al[q[0] % len(al)], al[q[1] % len(al)] + c["off"], al[q[2] % len(al)] - c["off"], 0, -1, -.5, al[-1] + 1000.5]
    for x in th:
        lab = hg.labelisation_horizontal_cut_from_threshold(tree, a, x)
        want = [max([n for n in r.anc(v) if al[n] <= x], default=-1 - v) for v in range(nl)]
        want = [w if w >= nl else -1 - v for v, w in enumerate(want)]
        req(lab.shape == shape and same_partition(lab, want), "threshold", x, "altitudes", al, "labels", lab.tolist(), "expected", want)
    # supervertices
    want = [max([n for n in r.anc(v) if al[n] <= 0], default=-1 - v) for v in range(nl)]
    want = [w if w >= nl else -1 - v for v, w in enumerate(want)]
    if link and PE is not None:
        lab = hg.labelisation_hierarchy_supervertices(tree, a)
        req(same_partition(lab, vm), "supervertices on a region adjacency graph", lab.tolist(), vm)
    lab = hg.labelisation_hierarchy_supervertices(tree, a, handle_rag=False)
    req(lab.shape == shape and same_partition(lab, want), "supervertices", lab.tolist(), want)
    u = sorted(set(np.ravel(lab).tolist()))
    req(u == list(range(len(u))), "supervertex labels are not 0..n-1", u)
    req(np.array_equal(a, a0), "altitudes modified")
    # increasingness test
    b = a.copy()
    b[q[3] % len(b)] = al[q[4] % len(al)]
    bl = b.tolist()
    inc = all(bl[i] <= bl[p[i]] for i in range(len(p)))
    req(bool(hg.test_altitudes_increasingness(tree, b)) == inc, "test_altitudes_increasingness", bl, p)
    if not inc:
        try:
            hg.HorizontalCutExplorer(tree, b)
        except ValueError:
            ctx.ev("not increasing: rejected")
        else:
            req(False, "explorer accepts decreasing altitudes")
    ctx.ev(c["a"]["dtype"])
    return len(set(al)) > 2


# ------------------------------------------------------------------ tree on the supervertices (C++ only)
def s_super(draw):
    p = G.tree(draw, 10, 9, big=60, min_leaves=1)
    if draw(G.st.integers(0, 9)) == 9:
        al = [0] * len(p)
    else:
        import random
        rd = random.Random(G.seed32(draw))
        th = G.choice(draw, [.3, .5, .8])
        nl = G.num_leaves(p)
        al = [0] * len(p)
        for i in range(len(p)):
            if i >= nl:
                al[i] += rd.randint(0, 2) if rd.random() < th else 0
            if p[i] != i:
                al[p[i]] = max(al[p[i]], al[i])
    return {"p": p, "a": [x / 2 for x in al], "cat": draw(G.st.booleans())}


def c_super(c, ctx):
    from props import p27
    L = p27._lib()
    p, al = c["p"], c["a"]
    r = T(p)
    n = r.n
    P, Al = np.array(p, dtype=np.int64), np.array(al, dtype=np.float64)
    lab, np_, nm = (np.full(n, -7, dtype=np.int64) for _ in range(3))
    cat = p27.I8(-1)
    k = L.supervertices(n, p27.ptr(P), p27.ptr(Al), int(c["cat"]), p27.ptr(lab), p27.ptr(np_), p27.ptr(nm), p27.C.byref(cat))
    req(k > 0, "supervertices_hierarchy failed", k, L.native_error())
    req(cat.value == int(c["cat"]), "category of the tree lost")
    lab, np_, nm = lab[:r.nl].tolist(), np_[:k].tolist(), nm[:k].tolist()
    # the largest node of altitude 0 above each leaf
    top = [max(x for x in r.anc(v) if al[x] == 0) for v in range(r.nl)]
    kept = set(top) | {x for v in range(r.nl) for x in r.anc(v) if al[x] > 0}
    req(same_partition(lab, top), "labels", lab, top)
    ns = len(set(top))
    req(sorted(set(lab)) == list(range(ns)), "labels are not 0..n-1", lab)
    req(sorted(nm) == sorted(kept), "nodes of the new tree", sorted(nm), "expected", sorted(kept))
    for v in range(r.nl):
        req(nm[lab[v]] == top[v], "leaf", v, "label", lab[v], "is the node", nm[lab[v]], "expected", top[v])
    for i in range(k):
        j = np_[i]
        if i == k - 1:
            req(nm[i] == r.root and j == i, "root", nm, np_)
        else:
            req(j > i and nm[j] == p[nm[i]], "parent of", i, "is", j, nm)
    if len(kept) == 1:
        ctx.ev("a single supervertex")
    return 1 < ns < r.nl


SUBTESTS = [
    Sub("supervertices", s_super, c_super, 1200, rule="more than one supervertex, at least one of several leaves", shard=320),
    Sub("explorer", s_explorer, c_explorer, 2500, rule="more than 2 distinct levels", shard=320),
    Sub("threshold", s_threshold, c_threshold, 2500, rule="more than 2 distinct altitudes", shard=320),
]
