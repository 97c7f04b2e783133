"""P18: level, shape, extremum and probability attributes of tree nodes."""
import numpy as np
import higra as hg
from vlib.core import Sub, req, Skip
from vlib import gen as G
from vlib.ref import T, arr, mat_edges
from vlib.hgc import mk_tree, mk_graph
from props.p17 import close


# ------------------------------------------------------------------ structure only
def s_struct(draw):
    p = G.tree(draw, 9, 9, big=40)
    ch = G.choice(draw, [None, None, 2])
    dt = G.choice(draw, G.ALL_DTYPES)
    return {"p": p, "ch": draw(G.st.integers(0, 2)), "skip": G.integer(draw, -7, 8), "w": G.seq(draw, len(p) * (ch or 1), 9),
            "c": ch, "dt": dt, "dep": draw(G.st.booleans())}


def c_struct(c, ctx):
    p = c["p"]
    r = T(p)
    t = mk_tree(p, c["ch"])
    n, nl = r.n, r.nl
    close(hg.attribute_depth(t), r.depth, "depth")
    md = max(r.depth)
    reg = np.array([0.0 if i < nl else 1 - r.depth[i] / md for i in range(n)])
    close(hg.attribute_regular_altitudes(t), reg, "regular altitudes")
    if c["dep"]:
        d2 = np.array([3 * x + 1 for x in r.depth])
        close(hg.attribute_regular_altitudes(t, d2), [0.0 if i < nl else 1 - d2[i] / d2.max() for i in range(n)],
              "regular altitudes with depth")
    th = [0] * n
    for i in range(n):
        for x in r.ch[i]:
            th[i] = max(th[i], th[x] + 1)
    close(hg.attribute_topological_height(t), th, "topological height")
    vl = hg.attribute_vertex_list(t)
    req([sorted(int(x) for x in l) for l in vl] == [sorted(s) for s in r.leaves_of], "vertex list")
    # children order is the one of the tree
    order = [list(int(x) for x in t.children(i)) for i in range(n)]
    req([sorted(o) for o in order] == r.ch, "children")
    cn = np.asarray(hg.attribute_child_number(t)).tolist()
    k = c["skip"]
    sib = np.asarray(hg.attribute_sibling(t, k)).tolist()
    sib1 = np.asarray(hg.attribute_sibling(t)).tolist()
    for i in range(n):
        if p[i] == i:
            req(cn[i] == -1 and sib[i] == i and sib1[i] == i, "root: child number, sibling", cn[i], sib[i])
        else:
            o = order[p[i]]
            j = o.index(i)
            req(cn[i] == j, "child number of", i, cn[i], j)
            req(sib[i] == o[(j + k) % len(o)], "sibling of", i, "skip", k, "got", sib[i], "children", o)
            req(sib1[i] == o[(j + 1) % len(o)], "sibling of", i, "got", sib1[i], "children", o)
    w = np.array(c["w"])
    if c["c"]:
        w = w.reshape((-1, c["c"]))
    w = w.astype(c["dt"])
    exp = np.zeros(w.shape)
    for i in range(n):
        for a in range(len(r.ch[i])):
            for b in range(a):
                exp[i] += w[r.ch[i][a]].astype(np.float64) * w[r.ch[i][b]].astype(np.float64)
    if c["c"] is None and (w.dtype.itemsize > 1 or exp.max() < 120) and (w.dtype.itemsize > 2 or exp.max() < 30000):
        close(hg.attribute_children_pair_sum_product(t, w), exp, "children pair sum product")
    return n > nl + 1


# ------------------------------------------------------------------ levels
def s_level(draw):
    p = G.tree(draw, 10, 9, big=50)
    dt = G.choice(draw, G.ALL_DTYPES)
    a = G.increasing_altitudes(draw, p, levels=G.choice(draw, [1, 2, 3, 6]), dtypes=(dt,))["v"]
    nl = G.num_leaves(p)
    m = max(a)
    inc = draw(G.st.booleans())
    if not inc:
        a = [m - x for x in a]
    signed = not dt.startswith("uint")
    mode = draw(G.st.integers(0, 4))
    if mode == 0 and signed:
        a = [x - m for x in a]
    elif mode == 1 and not dt.startswith("float") and not dt.endswith("64"):
        # (extinction values are computed in double precision) stick to a bound of the type
        i = np.iinfo(dt)
        if max(a) < 100:
            a = [int(i.max) - max(a) + x for x in a] if inc else [int(i.min) + x for x in a]
    elif mode == 2 and dt.startswith("float"):
        a = [x / 4 for x in a]
    # the altitudes of the leaves are irrelevant to the attributes of this sub-test, but monotone
    if dt in ("int8", "uint8") and max(a) - min(a) > 120:
        a = [0] * len(a)
    att = [x + 1 for x in G.increasing_altitudes(draw, p, levels=4)["v"]]
    adt = G.choice(draw, ["float64", "int64", "int32"])
    return {"p": p, "a": {"dtype": dt, "v": a}, "inc": inc, "att": att, "attdt": adt,
            "par": G.choice(draw, ["auto", "bool", "str"]), "ch": draw(G.st.integers(0, 2))}


def extremum_sets(r, a):
    """inner nodes being extrema: all their inner descendants have their altitude, and not their parent's"""
    res = [False] * r.n
    flat = [True] * r.n
    for i in r.inner():
        for x in r.ch[i]:
            if r.ch[x] and (a[x] != a[i] or not flat[x]):
                flat[i] = False
    for i in r.inner():
        res[i] = flat[i] and (i == r.root or a[r.p[i]] != a[i])
    return res


def c_level(c, ctx):
    r = T(c["p"])
    if r.n == 1:
        raise Skip()
    t = mk_tree(c["p"], c["ch"])
    alt = arr(c["a"])
    a = c["a"]["v"]
    alt0 = alt.copy()
    n, nl = r.n, r.nl
    inc = c["inc"]
    par = {"auto": "auto", "bool": inc, "str": "increasing" if inc else "decreasing"}[c["par"]]
    ext = extremum_sets(r, a)
    got = np.asarray(hg.attribute_extrema(t, alt))
    req(got.shape == (n,) and [bool(x) for x in got] == ext, "extrema", got.tolist(), ext, "altitudes", a)
    # heights
    sgn = 1 if inc else -1
    deep = [None] * n
    for i in r.inner():
        deep[i] = min([sgn * a[i]] + [deep[x] for x in r.ch[i] if r.ch[x]])
    hp = [0 if i < nl else sgn * a[r.p[i]] - deep[i] for i in range(n)]
    hc = [0 if i < nl else sgn * a[i] - deep[i] for i in range(n)]
    g = hg.attribute_height(t, alt, increasing_altitudes=par)
    close(g, hp, "height (parent) altitudes %s %s" % (c["a"]["dtype"], a))
    close(hg.attribute_height(t, alt, increasing_altitudes=par, reference_altitude="current"), hc,
          "height (current) altitudes %s %s" % (c["a"]["dtype"], a))

    # extinction values
    def check_ext(e, att, what):
        e = np.asarray(e).astype(np.float64).tolist()
        att = [float(x) for x in att]
        cont = [False] * n    # contains (or is) an extremum
        low = [None] * n
        inside = [-1] * n     # extremum containing the node
        for i in range(n):
            if ext[i]:
                cont[i], low[i] = True, sgn * a[i]
            else:
                k = [x for x in r.ch[i] if cont[x]]
                if k:
                    cont[i] = True
                    low[i] = min(low[x] for x in k)
        for i in range(n - 1, -1, -1):
            if ext[i]:
                inside[i] = i
            elif i != r.root:
                inside[i] = inside[r.p[i]]
        req(e[r.root] == att[r.root], what, "root", e[r.root], att[r.root])
        for i in range(n - 1, -1, -1):
            if i < nl:
                x = 0 if inside[i] < 0 else e[inside[i]]
                req(e[i] == x, what, "leaf", i, "got", e[i], "expected", x)
            elif not cont[i]:
                req(e[i] == 0, what, "node", i, "containing no extremum, got", e[i])
            elif not ext[i]:
                k = [x for x in r.ch[i] if cont[x]]
                m = min(low[x] for x in k)
                ok = any(low[s] == m and e[s] == e[i] and all(e[x] == att[x] for x in k if x != s) for s in k)
                req(ok, what, "node", i, "children", k, "extinctions", [e[x] for x in k], "attribute", [att[x] for x in k],
                    "depths", [low[x] for x in k], "extinction", e[i])
        if sum(ext) > 1:
            ctx.ev("several extrema")

    at = np.array(c["att"], dtype=c["attdt"])
    e = hg.attribute_extinction_value(t, alt, at, par)
    check_ext(e, at.tolist(), "extinction value (altitudes %s)" % a)
    e = hg.attribute_dynamics(t, alt, par)
    check_ext(e, hp, "dynamics (altitudes %s %s)" % (c["a"]["dtype"], a))
    req(np.array_equal(alt, alt0), "altitudes modified")
    return n > nl + 1


# ------------------------------------------------------------------ sampling probabilities
def s_prob(draw):
    p = G.tree(draw, 9, 8, big=25)
    nl = G.num_leaves(p)
    g = G.graph(draw, nl, nl, 9, connected=draw(G.st.booleans()))
    return {"p": p, "g": g, "w": [x + 1 for x in G.seq(draw, len(g["s"]), G.choice(draw, [2, 30, 120]))],
            "dt": G.choice(draw, ["float64", "float64", "int32", "uint8", "int64", "float32"]), "ch": draw(G.st.integers(0, 2))}


def c_prob(c, ctx):
    r = T(c["p"])
    g = c["g"]
    if not g["s"] or r.n == 1:
        raise Skip()
    t = mk_tree(c["p"], c["ch"])
    gr = mk_graph(g)
    w = np.array(c["w"], dtype=c["dt"])
    Z = sum(c["w"])
    E = mat_edges(g)
    exp = np.zeros(r.n)
    pv = [0.0] * r.nl
    for (a, b), x in zip(E, c["w"]):
        exp[r.lca(a, b)] += x / Z
        pv[a] += x / Z
        pv[b] += x / Z
    tol = 1e-5 if c["dt"] == "float32" else 1e-9
    close(hg.attribute_tree_sampling_probability(t, gr, w), exp, "edge sampling probability", None, tol)
    e2 = np.zeros(r.n)
    for a in range(r.nl):
        for b in range(a):
            e2[r.lca(a, b)] += pv[a] * pv[b]
    close(hg.attribute_tree_sampling_probability(t, gr, w, "null"), e2, "null sampling probability (%s)" % c["dt"], None, tol)
    try:
        hg.attribute_tree_sampling_probability(t, gr, w, "other")
    except ValueError:
        pass
    else:
        req(False, "unknown model accepted")
    return r.n > r.nl + 1 and len(E) > 2


SUBTESTS = [
    Sub("structure", s_struct, c_struct, 1500, rule="at least 2 inner nodes", shard=200),
    Sub("levels", s_level, c_level, 3000, rule="at least 2 inner nodes", shard=300),
    Sub("sampling", s_prob, c_prob, 1500, rule="at least 2 inner nodes and 3 edges", shard=300),
]
