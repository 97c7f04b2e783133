"""P21: assessment of partitions and hierarchies."""
import math
import numpy as np
import higra as hg
from vlib.core import Sub, req, Skip
from vlib import gen as G
from vlib.ref import T, arr, mat_edges
from vlib.hgc import mk_tree, mk_graph
from props.p13 import cut_nodes, base_graph, mk_base

MEASURES = ["BCE", "DHamming", "DCovering"]
TOL = 1e-10


def canon(v):
    """labels 0..k-1 from any list (in the order of the values, so that label 0 is not always the first)"""
    o = {x: i for i, x in enumerate(sorted(set(v)))}
    return [o[x] for x in v]


def sets(l):
    d = {}
    for i, x in enumerate(l):
        d.setdefault(x, set()).add(i)
    return d


def region_score(R, gt, measure):
    """contribution of the region R (not normalized)"""
    inter = [(len(R & g), len(g)) for g in gt]
    if measure == "BCE":
        return sum(c * min(c / g, c / len(R)) for c, g in inter)
    if measure == "DHamming":
        return max(c for c, g in inter)
    return len(R) * max(c / (g + len(R) - c) for c, g in inter)


def ref_score(cand, gt, measure):
    """cand, gt: lists of sets"""
    n = sum(len(x) for x in cand)
    return sum(region_score(R, gt, measure) for R in cand) / n


# ------------------------------------------------------------------ partitions
def s_part(draw):
    n = G.integer(draw, 1, G.sz(G.choice(draw, [4, 12, 30])))
    k = G.choice(draw, [1, 2, 3, 6, 12])
    a = G.seq(draw, n, k)
    m = G.integer(draw, 1, 3)
    gts = []
    for _ in range(m):
        mode = draw(G.st.integers(0, 3))
        b = G.seq(draw, n, G.choice(draw, [1, 2, 3, 6]))
        if mode == 0:  # the candidate with permuted labels
            b = [max(a) - x for x in a]
        elif mode == 1:  # close to the candidate
            b = [x if y else max(a) + 1 for x, y in zip(a, G.seq(draw, n, 4))]
        gts.append(b)
    fs = [x for x in range(1, n + 1) if n % x == 0]
    return {"a": a, "gts": gts, "dt": G.choice(draw, G.INT_DTYPES), "h": G.choice(draw, [None] + fs), "stack": draw(G.st.booleans())}


def c_part(c, ctx):
    a = canon(c["a"])
    gts = [canon(g) for g in c["gts"]]
    n = len(a)
    sh = (n,) if c["h"] is None else (c["h"], n // c["h"])
    A = np.array(a).astype(c["dt"]).reshape(sh)
    Gs = np.array(gts).astype(c["dt"]).reshape((len(gts),) + sh)
    if len(gts) == 1 and not c["stack"]:
        Gs = Gs[0]
    if Gs.shape == A.shape and len(gts) > 1:
        raise Skip()
    cs = list(sets(a).values())
    for m in MEASURES:
        got = hg.assess_partition(A, Gs, getattr(hg.PartitionMeasure, m))
        exp = sum(ref_score(cs, list(sets(g).values()), m) for g in gts) / len(gts)
        req(abs(got - exp) <= TOL, m, "of", a, "against", gts, "got", got, "expected", exp)
        req(0 <= got <= 1 + TOL, m, "out of [0, 1]", got)
        if all(len(set(zip(a, g))) == len(set(a)) == len(set(g)) for g in gts):
            req(abs(got - 1) <= TOL, m, "of identical partitions", got)
            ctx.ev("identical partitions")
    try:
        hg.assess_partition(A.ravel()[:-1], A.ravel(), hg.PartitionMeasure.BCE)
        req(n == 1, "partitions of different sizes accepted")
    except (ValueError, RuntimeError, TypeError):
        pass
    return len(cs) > 1 and any(len(set(g)) > 1 for g in gts)


# ------------------------------------------------------------------ fragmentation curves
def s_frag(draw):
    binary = draw(G.st.integers(0, 6)) > 0
    p = G.tree(draw, 9, 9, binary=binary, big=40, min_leaves=2)
    nl = G.num_leaves(p)
    g = base_graph(draw, nl)
    npx = sum(g["sizes"]) if g["kind"] == "rag" else nl
    dts = ["float64", "float64", "int32", "uint8", "int64", "float32"]
    a = G.increasing_altitudes(draw, p, levels=G.choice(draw, [2, 3, 5]), dtypes=dts)
    if a["dtype"] == "uint8" and max(a["v"]) > 255:
        a["dtype"] = "int64"
    gt = G.seq(draw, npx, G.choice(draw, [1, 2, 3, 6]))
    if draw(G.st.booleans()) and g["kind"] != "rag":  # a ground truth made of nodes of the tree, slightly perturbed
        r = T(p)
        d = [0] * r.n
        q = G.seq(draw, r.n, 3)
        for i in range(r.n - 1, -1, -1):
            d[i] = i if q[i] == 0 else d[p[i]]
        gt = [d[i] if x else 0 for i, x in zip(range(nl), gt)]
        if max(gt) > 127:
            gt = [sorted(set(gt)).index(x) % 128 for x in gt]
    return {"p": p, "g": g, "a": a, "gt": gt, "dt": G.choice(draw, G.INT_DTYPES), "max": G.choice(draw, [None, None, 1, 2, 3, 5, 100]),
            "ch": draw(G.st.integers(0, 2)), "gfloat": draw(G.st.integers(0, 5)) == 0}


def c_frag(c, ctx):
    p = c["p"]
    r = T(p)
    tree = mk_tree(p, c["ch"])
    gr, E, PE, vm = mk_base(c["g"])
    hg.CptHierarchy.link(tree, gr)
    gt = canon(c["gt"])
    gts = list(sets(gt).values())
    npx = len(gt)
    if vm is None:
        pix = [set(s) for s in r.leaves_of]
    else:
        of = sets(vm)
        pix = [set().union(*[of[x] for x in s]) for s in r.leaves_of]
        if npx <= 1:
            raise Skip()
    kw = {} if c["max"] is None else {"max_regions": c["max"]}
    mx = min(200 if c["max"] is None else c["max"], r.nl)
    GT = np.array(gt).astype(c["dt"])
    al, A = c["a"]["v"], arr(c["a"])
    levels = sorted({x for x in al if x <= al[r.root]}, reverse=True)
    cuts = [cut_nodes(r, al, x) for x in levels]
    for m in MEASURES:
        # horizontal cuts
        fc = hg.assess_fragmentation_horizontal_cut(tree, A, GT.astype(np.float64) if c["gfloat"] else GT, getattr(hg.PartitionMeasure, m), **kw)
        k = [len(x) for x in cuts if len(x) <= mx]
        exp = [ref_score([pix[i] for i in x], gts, m) for x in cuts if len(x) <= mx]
        req(np.asarray(fc.num_regions()).tolist() == k, m, "numbers of regions of the horizontal cuts", np.asarray(fc.num_regions()).tolist(), k)
        req(len(fc.scores()) == len(exp) and np.allclose(fc.scores(), exp, rtol=0, atol=TOL), m, "scores of the horizontal cuts",
            np.asarray(fc.scores()).tolist(), exp)
        req(fc.num_regions_ground_truth() == len(gts), m, "regions of the ground truth", fc.num_regions_ground_truth(), len(gts))
        req(np.allclose(fc.num_regions_normalized(), [x / len(gts) for x in k]), m, "normalized numbers of regions",
            np.asarray(fc.num_regions_normalized()).tolist())
    if any(r.ch[i] and len(r.ch[i]) != 2 for i in range(r.n)):
        try:
            hg.assess_fragmentation_optimal_cut(tree, GT, hg.OptimalCutMeasure.BCE, **kw)
        except (RuntimeError, ValueError):
            ctx.ev("non binary tree rejected")
            return len(cuts) > 2 and len(gts) > 1
        req(False, "non binary tree accepted")
    for m in MEASURES:
        om = getattr(hg.OptimalCutMeasure, m)
        ns = [region_score(s, gts, m) for s in pix]
        best = []
        for i in range(r.n):
            d = {1: ns[i]}
            if r.ch[i]:
                x, y = r.ch[i]
                for k1, v1 in best[x].items():
                    for k2, v2 in best[y].items():
                        if v1 + v2 > d.get(k1 + k2, -1):
                            d[k1 + k2] = v1 + v2
            best.append(d)
        b = best[r.root]
        exp = [b[k] / r.nl for k in range(1, mx + 1)]  # (the scores are divided by the number of leaves, also on a rag)
        fc = hg.assess_fragmentation_optimal_cut(tree, GT, om, **kw)
        req(np.asarray(fc.num_regions()).tolist() == list(range(1, mx + 1)), m, "numbers of regions of the optimal cuts",
            np.asarray(fc.num_regions()).tolist(), mx)
        req(np.allclose(fc.scores(), exp, rtol=0, atol=1e-9), m, "scores of the optimal cuts", np.asarray(fc.scores()).tolist(), exp)
        req(fc.num_regions_ground_truth() == len(gts), m, "regions of the ground truth", fc.num_regions_ground_truth(), len(gts))
        req(np.allclose(fc.num_regions_normalized(), [x / len(gts) for x in range(1, mx + 1)]), m, "normalized numbers of regions")
        ass = hg.make_assesser_fragmentation_optimal_cut(tree, GT, om, **kw)
        req(np.array_equal(ass.fragmentation_curve().scores(), fc.scores()), m, "curve of the assesser")
        top = max(exp)
        req(abs(ass.optimal_score() - top) <= 1e-9, m, "optimal score", ass.optimal_score(), top)
        ko = ass.optimal_number_of_regions()
        req(1 <= ko <= mx and exp[ko - 1] >= top - 1e-9, m, "optimal number of regions", ko, exp)
        for k in [0] + list(range(1, mx + 1)):
            lab = np.asarray(ass.optimal_partition(k) if k else ass.optimal_partition()).tolist()
            req(len(lab) == r.nl, m, "size of the optimal partition", len(lab))
            parts = sets(lab)
            tab = {frozenset(r.leaves_of[i]): i for i in range(r.n)}
            want = k or ko
            req(len(parts) == want, m, "regions of the optimal partition", lab, "expected", want)
            tot = 0
            for s in parts.values():
                req(frozenset(s) in tab, m, "region", sorted(s), "of the optimal partition is not a node of the tree")
                tot += ns[tab[frozenset(s)]]
            req(abs(tot / r.nl - exp[want - 1]) <= 1e-9, m, "score of the optimal partition in", want, tot / r.nl, exp[want - 1])
        for bad in (mx + 1, mx + 50):
            try:
                x = ass.optimal_partition(bad)
            except (RuntimeError, ValueError, IndexError):
                continue
            req(False, "optimal partition with", bad, "regions out of", mx, "gives", x)
    return len(cuts) > 2 and len(gts) > 1


# ------------------------------------------------------------------ costs of hierarchies
def s_cost(draw):
    p = G.tree(draw, 9, 8, big=40, min_leaves=2)
    nl = G.num_leaves(p)
    g = base_graph(draw, nl)
    return {"p": p, "g": g, "w": [1 + x for x in G.seq(draw, 40, G.choice(draw, [2, 5, 100]))], "lab": G.seq(draw, nl, G.choice(draw, [1, 2, 3, 6])),
            "off": G.integer(draw, 0, 2), "dt": G.choice(draw, ["float64", "float64", "float32", "int32", "uint8", "int64"]),
            "ldt": G.choice(draw, ["int64", "int32", "int8"]), "ch": draw(G.st.integers(0, 2)), "zero": draw(G.st.integers(0, 3)) == 0,
            "link": draw(G.st.booleans())}


def c_cost(c, ctx):
    p = c["p"]
    r = T(p)
    tree = mk_tree(p, c["ch"])
    gr, E, PE, vm = mk_base(c["g"])
    kw = {}
    if c["link"]:
        hg.CptHierarchy.link(tree, gr)
    else:
        kw = {"leaf_graph": gr}
    n = r.nl
    nt = False
    # purity
    lab = [x + c["off"] for x in c["lab"]]
    tot, Z = 0.0, 0
    for a in range(n):
        for b in range(a):
            if lab[a] == lab[b]:
                s = r.leaves_of[r.lca(a, b)]
                tot += sum(lab[x] == lab[a] for x in s) / len(s)
                Z += 1
    if Z:
        got = hg.dendrogram_purity(tree, np.array(lab).astype(c["ldt"]))
        req(abs(got - tot / Z) <= 1e-9, "dendrogram purity of", lab, "got", got, "expected", tot / Z)
        nt = len(set(lab)) > 1
    # costs
    w = [float(c["w"][i % 40]) for i in range(len(E))]
    wa = np.array(w).astype(c["dt"])
    tol = 1e-5 if c["dt"] == "float32" else 1e-9
    size = [1] * n if vm is None else [vm.count(i) for i in range(n)]
    area = [sum(size[x] for x in s) for s in r.leaves_of]
    exp = sum(area[r.lca(a, b)] / x for (a, b), x in zip(E, w))
    got = hg.dasgupta_cost(tree, wa, **kw)
    req(abs(got - exp) <= tol * max(1, exp), "Dasgupta cost", got, exp)
    req(abs(hg.dasgupta_cost(tree, wa, mode="dissimilarity", **kw) - exp) <= tol * max(1, exp), "Dasgupta cost, dissimilarity")
    exp = sum(area[r.lca(a, b)] * x for (a, b), x in zip(E, w))
    got = hg.dasgupta_cost(tree, wa, mode="similarity", **kw)
    req(abs(got - exp) <= tol * max(1, exp), "Dasgupta cost, similarity", got, exp)
    try:
        hg.dasgupta_cost(tree, wa, mode="distance", **kw)
        req(False, "unknown mode accepted")
    except ValueError:
        pass
    if c["zero"]:
        w = [x if i % 3 else 0.0 for i, x in enumerate(w)]
        wa = np.array(w).astype(c["dt"])
    tot = sum(w)
    if tot > 0:
        pe, qe, pv = [0.0] * r.n, [0.0] * r.n, [0.0] * n
        for (a, b), x in zip(E, w):
            pe[r.lca(a, b)] += x / tot
            pv[a] += x / tot
            pv[b] += x / tot
        for a in range(n):
            for b in range(a):
                qe[r.lca(a, b)] += pv[a] * pv[b]
        exp = sum(x * math.log(x / y) for x, y in zip(pe, qe) if x > 0)
        got = hg.tree_sampling_divergence(tree, wa, **kw)
        req(abs(got - exp) <= tol * max(1, abs(exp)) * 10, "tree sampling divergence", got, exp)
    return nt and r.n > n + 1


SUBTESTS = [
    Sub("partition", s_part, c_part, 3000, rule="candidate and ground truths with several regions", shard=300),
    Sub("fragmentation", s_frag, c_frag, 2000, rule="more than two horizontal cuts and two regions in the ground truth", shard=200),
    Sub("costs", s_cost, c_cost, 2500, rule="several labels and several inner nodes", shard=250),
]
