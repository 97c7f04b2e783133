"""P03: trees against the plain parent array."""
import numpy as np
import higra as hg
from vlib.core import Sub, req
from vlib import gen as G
from vlib.ref import arr, T
from vlib.hgc import mk_tree

IDX = ["int32", "uint32", "int64", "uint64"]


def s_nav(draw):
    p = G.tree(draw, 9, 8, big=60)
    return {"p": p, "dtype": G.choice(draw, IDX), "cat": draw(G.st.integers(0, 1)),
            "steps": G.seq(draw, draw(G.st.integers(1, 4)), 4), "q": G.seq(draw, 6, 256),
            "lay": draw(G.st.integers(0, 2)), "lst": draw(G.st.booleans())}


def nav(t, r, ctx, q):
    n, nl = r.n, r.nl
    req(t.num_vertices() == n and t.num_leaves() == nl and t.root() == n - 1 and t.num_edges() == n - 1, "counts",
        t.num_vertices(), t.num_leaves(), t.root(), t.num_edges())
    req(np.array_equal(t.parents(), r.p), "parents")
    req(list(t.vertices()) == list(range(n)) and list(t.leaves()) == list(range(nl)), "vertices/leaves")
    vs = np.arange(n)
    req(np.array_equal(t.parent(vs), r.p), "parent array")
    req(np.array_equal(np.asarray(t.is_leaf(vs)).astype(bool), vs < nl), "is_leaf array")
    req(np.array_equal(t.num_children(vs), [len(c) for c in r.ch]), "num_children array", t.num_children(vs))
    req(np.array_equal(t.num_children(), [len(r.ch[i]) for i in range(nl, n)]), "num_children()")
    deg = [len(r.ch[i]) + (1 if i != n - 1 else 0) for i in range(n)]
    for f in (t.degree, t.in_degree, t.out_degree):
        req(np.array_equal(f(vs), deg), "degree array", f(vs), deg)
    for i in range(n):
        req(t.parent(i) == r.p[i] and t.is_leaf(i) == (i < nl) and t.num_children(i) == len(r.ch[i]), "node", i)
        ch = list(t.children(i))
        req(ch == r.ch[i], "children", i, ch, r.ch[i])
        for k, c in enumerate(r.ch[i]):
            req(t.child(k, i) == c, "child", k, i, t.child(k, i), c)
        req(t.degree(i) == deg[i] and t.in_degree(i) == deg[i] and t.out_degree(i) == deg[i], "degree", i)
        req(list(t.ancestors(i)) == r.anc(i), "ancestors", i, t.ancestors(i))
        nb = sorted(r.ch[i] + ([r.p[i]] if i != n - 1 else []))
        req(sorted(t.adjacent_vertices(i)) == nb, "adjacent", i, list(t.adjacent_vertices(i)), nb)
        oe = [tuple(e) for e in t.out_edges(i)]
        req(sorted(oe) == sorted((i, x, min(i, x)) for x in nb), "out_edges", i, oe)
        ie = [tuple(e) for e in t.in_edges(i)]
        req(sorted(ie) == sorted((x, i, min(i, x)) for x in nb), "in_edges", i, ie)
    k = min([len(r.ch[i]) for i in range(nl, n)], default=0)
    for j in range(k):
        req(np.array_equal(t.child(j), [r.ch[i][j] for i in range(nl, n)]), "child(j)", j)
    sel = [x % n for x in q]
    sel = [x for x in sel if len(r.ch[x]) > 1]
    if sel:
        req(np.array_equal(t.child(1, np.array(sel)), [r.ch[x][1] for x in sel]), "child(1, array)")
    exp = [(i, r.p[i], i) for i in range(n - 1)]
    req([tuple(e) for e in t.edges()] == exp, "edges")
    for i in range(n - 1):
        e = t.edge_from_index(i)
        req(tuple(e) == exp[i], "edge_from_index", i, e)
        req(t.source(e) == i and t.target(e) == r.p[i] and t.index(e) == i, "source/target/index")
    s, g = t.edge_list()
    req(np.array_equal(s, np.arange(n - 1)) and np.array_equal(g, r.p[:-1]), "edge_list")
    req(np.array_equal(t.sources(), s) and np.array_equal(t.targets(), g), "sources/targets")
    for il in (False, True):
        for ir in (False, True):
            e = [i for i in range(n) if (il or i >= nl) and (ir or i != n - 1)]
            if n > 1:
                req(list(t.leaves_to_root_iterator(il, ir)) == e, "leaves_to_root", il, ir)
                req(list(t.root_to_leaves_iterator(il, ir)) == e[::-1], "root_to_leaves", il, ir)


def c_nav(c, ctx):
    p = np.array(c["p"], dtype=c["dtype"])
    if c["lay"] == 1:
        b = np.full(2 * len(p), 99, dtype=c["dtype"])
        b[::2] = p
        p = b[::2]
    elif c["lay"] == 2:
        p = np.ascontiguousarray(p[::-1])[::-1]
    cat = [hg.TreeCategory.PartitionTree, hg.TreeCategory.ComponentTree][c["cat"]]
    t = hg.Tree(c["p"] if c["lst"] else p, cat)
    r = T(c["p"])
    req(t.category() == cat, "category")
    for s in c["steps"]:
        if s == 1:
            t.clear_children()
        elif s == 2:
            t.children(r.root)
        elif s == 3:
            nav(t, r, ctx, c["q"])
    nav(t, r, ctx, c["q"])
    if any(len(x) == 1 for x in r.ch):
        ctx.ev("unary")
    return r.n > 3 and r.n - r.nl > 1


# ------------------------------------------------------------------ sub tree / undirected graph / find_region
def s_sub(draw):
    p = G.tree(draw, 9, 8, big=60)
    return {"p": p, "node": draw(G.st.integers(0, 255)), "cat": draw(G.st.integers(0, 1))}


def c_sub(c, ctx):
    r = T(c["p"])
    cat = [hg.TreeCategory.PartitionTree, hg.TreeCategory.ComponentTree][c["cat"]]
    t = hg.Tree(np.array(c["p"], dtype=np.int64), cat)
    v = c["node"] % r.n
    d = r.desc(v)
    st, nm = t.sub_tree(v)
    req(list(nm) == d, "node map", list(nm), d)
    pos = {x: i for i, x in enumerate(d)}
    exp = [pos[r.p[x]] if x != v else len(d) - 1 for x in d]
    req(list(st.parents()) == exp, "sub tree parents", list(st.parents()), exp)
    req(st.category() == cat, "category")
    req(np.array_equal(t.parents(), c["p"]), "tree changed")
    g = t.to_undirected_graph()
    req(g.num_vertices() == r.n, "graph size")
    s, e = g.edge_list()
    req(np.array_equal(s, np.arange(r.n - 1)) and np.array_equal(e, r.p[:-1]), "graph edges")
    if r.n > 1:
        g = t.to_undirected_graph(include_leaves=False)
        req(g.num_vertices() == r.n - r.nl, "graph size without leaves", g.num_vertices())
        s, e = g.edge_list()
        req(list(zip(s.tolist(), e.tolist())) == [(i - r.nl, r.p[i] - r.nl) for i in range(r.nl, r.n - 1)],
            "graph edges without leaves")
    return len(d) > 2


def s_find(draw):
    p = G.tree(draw, 9, 8, big=40)
    inc = draw(G.st.integers(0, 3)) > 0
    w = G.increasing_altitudes(draw, p, dtypes=G.ALL_DTYPES, levels=3) if inc else G.weights(draw, len(p))
    k = draw(G.st.integers(1, 8))
    return {"p": p, "w": w, "v": G.seq(draw, k, len(p)), "l": G.seq(draw, k, 40), "half": draw(G.st.booleans()),
            "scalar": draw(G.st.booleans())}


def c_find(c, ctx):
    r = T(c["p"])
    t = mk_tree(c["p"])
    a = arr(c["w"])
    lo, hi = float(a.min()), float(a.max())
    isf = a.dtype.kind == "f"
    lv = []
    for x in c["l"]:
        y = lo + (hi - lo + 2) * (x / 39.0) - 1
        y = float(int(y)) if not (isf and c["half"]) else y
        if a.dtype.kind == "u":
            y = max(y, 0)
        info = None if isf else np.iinfo(a.dtype)
        if info:
            y = min(max(y, info.min), info.max)
        lv.append(y)
    la = np.array(lv).astype(a.dtype)
    exp = []
    for v, l in zip(c["v"], la):
        while r.p[v] != v and a[r.p[v]] < l:
            v = r.p[v]
        exp.append(v)
    got = t.find_region(np.array(c["v"], dtype=np.int64), la, a)
    req(list(got) == exp, "find_region", list(got), exp, c["v"], la)
    for v, l, e in zip(c["v"], la, exp):
        g = t.find_region(v, l, a)
        req(g == e, "find_region scalar", v, l, g, e)
    got = t.find_region(np.array(c["v"], dtype=np.int64), la[0].item(), a)
    exp = []
    for v in c["v"]:
        while r.p[v] != v and a[r.p[v]] < la[0]:
            v = r.p[v]
        exp.append(v)
    req(list(got) == exp, "find_region one level", list(got), exp)
    return r.n > 3


# ------------------------------------------------------------------ rejection
def s_bad(draw):
    if draw(G.st.booleans()):
        n = draw(G.st.integers(1, G.sz(7)))
        p = [x - 2 for x in G.seq(draw, n, n + 4)]
    else:
        p = list(G.tree(draw, 6, 5, single=False))
        for _ in range(draw(G.st.integers(1, 2))):
            p[draw(G.st.integers(0, len(p) - 1))] = draw(G.st.integers(-3, len(p) + 2))
    return {"p": p, "dtype": G.choice(draw, ["int32", "int64", "uint32", "uint64"]),
            "nd": draw(G.st.integers(0, 7)) == 0, "lst": draw(G.st.booleans())}


def valid(p):
    n = len(p)
    if n == 0 or any(x < 0 or x >= n for x in p) or p[-1] != n - 1:
        return False
    if any(p[i] <= i for i in range(n - 1)):
        return False
    has = [False] * n
    for i in range(n - 1):
        has[p[i]] = True
    k = has.index(True) if True in has else n
    return all(has[k:])


def c_bad(c, ctx):
    p = c["p"]
    ok = valid(p)
    if c["dtype"].startswith("u") and any(x < 0 for x in p):
        a = np.array(p, dtype=np.int64).astype(c["dtype"])
    else:
        a = np.array(p, dtype=c["dtype"])
    if c["nd"]:
        a = a.reshape((1, -1)) if c["lst"] else a.reshape((-1, 1))
        ok = False
    elif c["lst"]:
        a = list(p)
    try:
        t = hg.Tree(a)
    except (RuntimeError, TypeError, ValueError):
        req(not ok, "valid parent array rejected", p)
        ctx.ev("rejected")
        return True
    req(ok, "invalid parent array accepted", p, t.num_vertices(), t.parents())
    ctx.ev("accepted")
    return False


SUBTESTS = [
    Sub("navigation", s_nav, c_nav, 2000, rule="at least 4 nodes, 2 of them inner nodes"),
    Sub("sub_tree", s_sub, c_sub, 2500, rule="sub-tree of at least 3 nodes"),
    Sub("find_region", s_find, c_find, 2500, rule="at least 4 nodes"),
    Sub("rejection", s_bad, c_bad, 4000, rule="the array is invalid"),
]
