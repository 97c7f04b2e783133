"""P23: Khalimsky maps, contours, perimeters, oriented watershed and mean-pb hierarchies."""
import math
import numpy as np
import higra as hg
from vlib.core import Sub, req, Skip
from vlib import gen as G
from vlib.ref import T, same_partition


def seq(draw, n, hi):
    return G.seq(draw, n, hi + 1)


def grid_edges(h, w):
    """edges of the 4 adjacency graph in the order of hg.get_4_adjacency_graph, as pairs of pixels"""
    g = hg.get_4_adjacency_graph((h, w))
    s, t = g.edge_list()
    return g, list(zip(np.asarray(s).tolist(), np.asarray(t).tolist()))


def pos(e, w):
    """coordinates (doubled) of the middle of the edge: the grid element that represents it"""
    (a, b) = e
    return (a // w + b // w, a % w + b % w)


def ends(e, w):
    """the two extremities (pointels, doubled coordinates) of the frontier element between two pixels"""
    y, x = pos(e, w)
    if y % 2:                       # pixels one above the other: horizontal frontier
        return (y, x - 1), (y, x + 1)
    return (y - 1, x), (y + 1, x)


# ------------------------------------------------------------------ Khalimsky
def s_khal(draw):
    h, w = G.integer(draw, 1, G.sz(7, 2)), G.integer(draw, 1, G.sz(7, 2))
    m = h * (w - 1) + w * (h - 1)
    return {"sh": [h, w], "w": seq(draw, m, G.choice(draw, [1, 3, 200])), "dt": G.choice(draw, G.ALL_DTYPES),
            "off": G.choice(draw, [0, 0, -1, -50]), "border": draw(G.st.booleans()), "explicit": draw(G.st.booleans()),
            "kw": draw(G.st.booleans())}


def c_khal(c, ctx):
    h, w = c["sh"]
    g, E = grid_edges(h, w)
    v = [x + c["off"] for x in c["w"]]
    if np.dtype(c["dt"]).kind == "u":
        v = [abs(x) for x in v]
    v = [max(-100, min(120, x)) for x in v]
    a = np.array(v, dtype=c["dt"])
    if a.dtype.kind == "f":
        a = a / 4
    b = c["border"]
    k = np.asarray(hg.graph_4_adjacency_2_khalimsky(g, a, (h, w), b) if c["explicit"] else hg.graph_4_adjacency_2_khalimsky(g, a, add_extra_border=b))
    o = 1 if b else -1
    req(k.shape == (2 * h + o, 2 * w + o), "shape of the Khalimsky image", k.shape, "for", (h, w), "border", b)
    s = 1 if b else 0
    at = {}
    for i, e in enumerate(E):
        y, x = pos(e, w)
        req(k[y + s, x + s] == a[i], "element", (y, x), "holds", k[y + s, x + s], "expected", a[i])
        at[(y, x)] = a[i]
    for y in range(k.shape[0]):
        for x in range(k.shape[1]):
            yy, xx = y - s, x - s
            if yy % 2 == 0 and xx % 2 == 0:
                req(k[y, x] == 0, "a region element is not null", (y, x), k[y, x])
            elif b and (yy + xx) % 2 and (yy, xx) not in at:
                req(k[y, x] == 0, "a border element is not null", (y, x), k[y, x])
            elif yy % 2 and xx % 2:
                nb = [k[y + dy, x + dx] for dy, dx in ((0, 1), (1, 0), (0, -1), (-1, 0)) if 0 <= y + dy < k.shape[0] and 0 <= x + dx < k.shape[1]]
                req(k[y, x] == max(nb), "a pointel holds", k[y, x], "around it", nb)
    for graph in (None, g):
        g2, w2 = hg.khalimsky_2_graph_4_adjacency(k, b) if graph is None else hg.khalimsky_2_graph_4_adjacency(k, extra_border=b, graph=g)
        s2, t2 = g2.edge_list()
        E2 = list(zip(np.asarray(s2).tolist(), np.asarray(t2).tolist()))
        req(g2.num_vertices() == h * w, "vertices", g2.num_vertices())
        req(sorted(map(tuple, map(sorted, E2))) == sorted(map(tuple, map(sorted, E))), "edges of the converted graph", E2)
        w2 = np.asarray(w2)
        req(w2.shape == (len(E),), "weights shape", w2.shape)
        ref = {tuple(sorted(e)): a[i] for i, e in enumerate(E)}
        for i, e in enumerate(E2):
            req(w2[i] == ref[tuple(sorted(e))], "edge", e, "came back with", w2[i], "instead of", ref[tuple(sorted(e))])
        req(tuple(hg.CptGridGraph.get_shape(g2)) == (h, w), "shape of the converted graph", hg.CptGridGraph.get_shape(g2))
    if h * w > 1 and (h, w) != (w, h):
        bad = hg.get_4_adjacency_graph((w, h))
        try:
            hg.khalimsky_2_graph_4_adjacency(k, b, graph=bad)
            req(False, "a graph of the wrong shape was accepted")
        except ValueError:
            ctx.ev("wrong shape rejected")
    ctx.ev("border" if b else "no border")
    if min(h, w) == 1:
        ctx.ev("degenerate shape")
    return len(E) >= 4 and len(set(v)) > 1


# ------------------------------------------------------------------ contours
def s_cut(draw):
    h, w = G.integer(draw, 1, G.sz(8, 2)), G.integer(draw, 1, G.sz(8, 2))
    m = h * (w - 1) + w * (h - 1)
    c = {"sh": [h, w], "mode": G.choice(draw, ["labels", "labels", "blocks", "edges", "shape"]),
         "lab": seq(draw, h * w, G.choice(draw, [1, 2, 5])), "e": seq(draw, m, G.choice(draw, [1, 3, 9])),
         "cuts": [[G.integer(draw, 0, 7), G.integer(draw, 0, 7), G.integer(draw, 0, 7), G.integer(draw, 0, 7)] for _ in range(G.integer(draw, 1, 4))],
         "dt": G.choice(draw, ["int32", "float64", "uint8", "int64", "float32", "int8"]),
         "val": G.choice(draw, [1, 1, 3, 100]), "neg": draw(G.st.booleans()),
         "eps": G.choice(draw, [0.0, 1e-6, 0.05, 0.1, 0.2, 0.5, 1.0, 2.0]), "rel": draw(G.st.booleans()),
         "min": G.choice(draw, [0, 0, 1, 2, 2, 3]), "per": draw(G.st.booleans()),
         "again": [G.choice(draw, [0.05, 0.5, 1.0]), draw(G.st.booleans()), G.choice(draw, [0, 1, 2])] if draw(G.st.booleans()) else None,
         "default": draw(G.st.integers(0, 5)) == 0}
    if draw(G.st.integers(0, 9)) == 0:
        # a large disc or band: long contours
        c["sh"] = [20, 20]
        c["mode"] = "disc"
        c["lab"] = [G.integer(draw, 4, 16), G.integer(draw, 4, 16), G.integer(draw, 2, 12), G.integer(draw, 1, 5)]
        c["e"] = []
    return c


def labels_of(c):
    h, w = c["sh"]
    if c["mode"] == "disc":
        cy, cx, r, q = c["lab"]
        return [int((y - cy) ** 2 * q + (x - cx) ** 2 * 2 <= r * r * 2) for y in range(h) for x in range(w)]
    if c["mode"] in ("blocks", "shape"):
        L = np.zeros((h, w), dtype=int)
        for k, (y0, x0, y1, x1) in enumerate(c["cuts"]):
            if c["mode"] == "blocks":
                L[min(y0, y1):max(y0, y1) + 1, min(x0, x1):max(x0, x1) + 1] = k + 1
            else:                      # half planes
                Y, X = np.mgrid[0:h, 0:w]
                L = L * 2 + ((Y - y0) * (x1 + 1) + (X - x0) * (y1 - 3) > 0)
        return L.reshape(-1).tolist()
    return c["lab"]


def cut_of(c, E):
    if c["mode"] == "edges":
        return [1 if x == 0 else 0 for x in c["e"]]
    L = labels_of(c)
    return [int(L[a] != L[b]) for a, b in E]


def chains(E, cut, h, w):
    """the frontier elements grouped by the points where exactly two of them meet"""
    inc = {}
    for i, e in enumerate(E):
        if cut[i]:
            for p in ends(e, w):
                inc.setdefault(p, []).append(i)

    def inner(p):
        return 0 < p[0] + 1 < 2 * h and 0 < p[1] + 1 < 2 * w

    link = {i: [] for i in range(len(E)) if cut[i]}
    for p, l in inc.items():
        if inner(p) and len(l) == 2:
            a, b = l
            link[a].append(b)
            link[b].append(a)
    seen, comps = set(), []
    for i in link:
        if i not in seen:
            st, comp = [i], []
            seen.add(i)
            while st:
                x = st.pop()
                comp.append(x)
                for y in link[x]:
                    if y not in seen:
                        seen.add(y)
                        st.append(y)
            comps.append(frozenset(comp))
    return link, comps


def read(contour):
    """list of polylines, each a list of segments, each a list of (edge, (y, x))"""
    out = []
    for p in contour:
        out.append([[(el[0], tuple(el[1])) for el in s] for s in p])
    return out


def flat(poly):
    r = list(poly[0])
    for s in poly[1:]:
        r += s[1:]
    return r


def dist(p, v, w):
    l = math.hypot(v[0] - w[0], v[1] - w[1])
    if l == 0:
        return math.hypot(p[0] - v[0], p[1] - v[1])
    return abs((w[0] - v[0]) * (p[1] - v[1]) - (w[1] - v[1]) * (p[0] - v[0])) / l


TOL = 1e-7


def qualify(P, a, b, eps, rel, mn):
    """(surely, possibly) splitting elements strictly between positions a and b"""
    v, w = P[a], P[b]
    th = eps * math.hypot(v[0] - w[0], v[1] - w[1]) if rel else eps
    d = {i: dist(P[i], v, w) for i in range(a + 1, b)}
    sure = [i for i in d if d[i] >= th + TOL and d[i] > mn + TOL]
    poss = [i for i in d if d[i] >= th - TOL and d[i] > mn - TOL]
    return d, sure, poss


def legal(P, a, b, ctl, eps, rel, mn, depth=0):
    """is the set of control points between a and b a possible outcome of Ramer-Douglas-Peucker?"""
    ins = [k for k in ctl if a < k < b]
    d, sure, poss = qualify(P, a, b, eps, rel, mn)
    if not ins:
        return not sure
    if not poss:
        return False
    top = max(d[i] for i in poss)
    for k in ins:
        if k in poss and d[k] >= top - TOL:
            if legal(P, a, k, ins, eps, rel, mn) and legal(P, k, b, ins, eps, rel, mn):
                return True
    return False


def check_segments(polys, before, eps, rel, mn, what):
    req(len(polys) == len(before), what, "changed the number of polylines")
    n = 0
    for poly, old in zip(polys, before):
        fl = flat(poly)
        req(fl == flat(old), what, "changed the elements of a polyline", fl, flat(old))
        for s, s2 in zip(poly, poly[1:]):
            req(s[-1] == s2[0], what, "consecutive segments do not share their extremities")
        P = [e[1] for e in fl]

        def controls(pl):
            ctl = [0]
            for s in pl:
                ctl.append(ctl[-1] + len(s) - 1)
            return ctl
        ctl, prev = controls(poly), controls(old)
        req(ctl[-1] == len(fl) - 1, what, "the segments do not cover the polyline")
        req(set(prev) <= set(ctl), what, "an existing subdivision was lost", prev, ctl)
        for a, b in zip(prev, prev[1:]):
            if a < b:
                req(legal(P, a, b, ctl, eps, rel, mn), what, "segments", ctl, "of the polyline", P, "do not follow the tolerance", (eps, rel, mn))
        n += len(ctl) - len(prev)
    return n


def check_contour(contour, E, cut, h, w):
    polys = read(contour)
    link, comps = chains(E, cut, h, w)
    got = []
    for poly in polys:
        req(len(poly) == 1, "a new polyline has", len(poly), "segments")
        el = [e[0] for e in poly[0]]
        req(all(0 <= i < len(E) and cut[i] for i in el), "an element is not in the cut", el)
        for e, xy in poly[0]:
            y, x = pos(E[e], w)
            req(xy == (y / 2, x / 2), "coordinates of the element between", E[e], "are", xy, "expected", (y / 2, x / 2))
        for a, b in zip(el, el[1:]):
            req(b in link[a], "successive elements", E[a], E[b], "do not follow each other on a frontier")
        req(len(set(el)) == len(el), "an element appears twice in a polyline", el)
        got.append(frozenset(el))
    req(sorted(map(sorted, got)) == sorted(map(sorted, comps)), "polylines", sorted(map(sorted, got)), "expected", sorted(map(sorted, comps)))
    return polys


def c_contour(c, ctx):
    h, w = c["sh"]
    g, E = grid_edges(h, w)
    cut = cut_of(c, E)
    val = np.array([c["val"] * x for x in cut], dtype=c["dt"])
    if c["neg"] and val.dtype.kind != "u":
        val[::2] = -val[::2]                  # any non null value is part of the cut
        ctx.ev("negative weights")
    contour = hg.fit_contour_2d(g, (h, w), val)
    polys = check_contour(contour, E, cut, h, w)
    req(len(contour) == len(polys), "len of the contour", len(contour), "polylines", len(polys))
    for i, p in enumerate(polys):
        q = contour[i]
        req(len(q) == len(p), "len of a polyline", len(q))
        s = q[0]
        req(len(s) == len(p[0]), "len of a segment", len(s))
        req([(s[j][0], tuple(s[j][1])) for j in range(len(s))] == p[0], "items of a segment differ from its iteration")
    if c["default"]:
        par = (0.1, True, 2)
        contour.subdivide()
    else:
        par = (c["eps"], c["rel"], c["min"])
        if c["per"]:
            for p in contour:
                p.subdivide(*par)
        else:
            contour.subdivide(*par)
    after = read(contour)
    k = check_segments(after, polys, *par, "subdivide")
    if k:
        ctx.ev("subdivided polylines")
    for poly, q in zip(after, contour):
        for j, s in enumerate(q):
            v, z = poly[j][0][1], poly[j][-1][1]
            nrm = math.hypot(v[0] - z[0], v[1] - z[1])
            req(abs(s.norm() - nrm) <= 1e-9, "norm", s.norm(), "expected", nrm)
            ang = s.angle()
            req(-math.pi - 1e-9 <= ang <= math.pi + 1e-9, "angle", ang)
            if nrm > 0:
                # the direction of the segment
                req(abs(math.cos(ang) * (z[0] - v[0]) - math.sin(ang) * (z[1] - v[1])) <= 1e-9 * (1 + nrm), "angle", ang, "of the segment", v, z)
            for el in poly[j]:
                d = s.distance_to_point(list(el[1]))
                req(abs(d - dist(el[1], v, z)) <= 1e-9 * (1 + d), "distance to a point", d, "expected", dist(el[1], v, z))
    if c["again"]:
        contour.subdivide(*c["again"])
        check_segments(read(contour), after, *c["again"], "second subdivide")
    ctx.ev(c["mode"])
    if any(len(set(x for e in p[0] for x in ends(E[e[0]], w))) == len(p[0]) for p in polys):
        ctx.ev("closed polyline")
    return sum(cut) >= 3 and max((len(p[0]) for p in polys), default=0) >= 3


# ------------------------------------------------------------------ perimeters
def c_perim(c, ctx):
    h, w = c["sh"]
    g, E = grid_edges(h, w)
    if c["mode"] == "edges":
        c = dict(c, mode="labels")
    L = labels_of(c)
    if all(x == L[0] for x in L) and c["val"] == 100:
        raise Skip("one region")
    rag = hg.make_region_adjacency_graph_from_labelisation(g, np.asarray(L))
    vm, em = np.asarray(hg.CptRegionAdjacencyGraph.get_vertex_map(rag)), np.asarray(hg.CptRegionAdjacencyGraph.get_edge_map(rag))
    par = (0.1, True, 2) if c["default"] else (c["eps"], c["rel"], c["min"])
    per, length = hg.rag_2d_vertex_perimeter_and_edge_length(rag) if c["default"] else \
        hg.rag_2d_vertex_perimeter_and_edge_length(rag, epsilon=par[0], relative_epsilon=par[1], min_size=par[2])
    per, length = np.asarray(per), np.asarray(length)
    cut = [int(vm[a] != vm[b]) for a, b in E]
    contour = hg.fit_contour_2d(g, (h, w), np.asarray(cut))
    contour.subdivide(*par)
    ep, el = np.zeros(rag.num_vertices()), np.zeros(rag.num_edges())
    rs, rt = (np.asarray(x).tolist() for x in rag.edge_list())
    for poly in read(contour):
        ids = {int(em[e]) for s in poly for e, _ in s}
        req(len(ids) == 1, "a polyline separates several pairs of regions", ids)
        i = ids.pop()
        for s in poly:
            v, z = s[0][1], s[-1][1]
            x = math.hypot(v[0] - z[0], v[1] - z[1]) + 1
            el[i] += x
            ep[rs[i]] += x
            ep[rt[i]] += x
    for y in range(h):
        for x in range(w):
            ep[vm[y * w + x]] += (y == 0) + (y == h - 1) + (x == 0) + (x == w - 1)
    req(per.shape == ep.shape and length.shape == el.shape, "shapes", per.shape, length.shape)
    req(np.allclose(per, ep, rtol=1e-9, atol=1e-9), "vertex perimeter", per.tolist(), "expected", ep.tolist())
    req(np.allclose(length, el, rtol=1e-9, atol=1e-9), "edge length", length.tolist(), "expected", el.tolist())
    return rag.num_edges() >= 2


# ------------------------------------------------------------------ oriented watershed and mean pb
def s_pb(draw):
    h, w = G.integer(draw, 2, G.sz(8, 2)), G.integer(draw, 2, G.sz(8, 2))
    m = h * (w - 1) + w * (h - 1)
    return {"sh": [h, w], "w": seq(draw, m, G.choice(draw, [2, 6, 30])), "dt": G.choice(draw, ["float64", "float64", "float32", "int32"]),
            "o": seq(draw, m, 15) if draw(G.st.booleans()) else None, "others": [seq(draw, m, 5) for _ in range(G.integer(draw, 1, 2))],
            "shape": draw(G.st.booleans())}


def weights(v, dt):
    a = np.asarray(v, dtype=dt)
    return a / 8 if a.dtype.kind == "f" else a


def ows_ref(g, E, h, w, ew, eo):
    """rag weights expected from the labels of the watershed"""
    lab = np.asarray(hg.labelisation_watershed(g, ew)).ravel()
    cut = [int(lab[a] != lab[b]) for a, b in E]
    if eo is None:
        fw = [float(x) for x in ew]
    else:
        fw = [0.0] * len(E)
        contour = hg.fit_contour_2d(g, (h, w), np.asarray(cut))
        contour.subdivide()
        for poly in read(contour):
            for s in poly:
                v, z = s[0][1], s[-1][1]
                a = math.atan2(v[0] - z[0], v[1] - z[1])
                for e, _ in s:
                    fw[e] = max(fw[e], float(ew[e]) * abs(math.cos(float(eo[e]) - math.pi / 2 - a)))
    agg = {}
    for i, (a, b) in enumerate(E):
        if cut[i]:
            agg.setdefault(frozenset((int(lab[a]), int(lab[b]))), []).append(fw[i])
    return lab, agg


def c_pb(c, ctx):
    h, w = c["sh"]
    g, E = grid_edges(h, w)
    ew = weights(c["w"], c["dt"])
    eo = None if c["o"] is None else np.asarray(c["o"]) * (math.pi / 8) - (0 if c["dt"] == "float32" else math.pi / 2)
    kw = {"shape": (h, w)} if c["shape"] else {}
    if eo is not None:
        kw["edge_orientations"] = eo
    rag, rw = hg.oriented_watershed(g, ew, **kw)
    rw = np.asarray(rw)
    lab, agg = ows_ref(g, E, h, w, ew, eo)
    vm = np.asarray(hg.CptRegionAdjacencyGraph.get_vertex_map(rag))
    em = np.asarray(hg.CptRegionAdjacencyGraph.get_edge_map(rag)).tolist()
    req(hg.CptRegionAdjacencyGraph.get_pre_graph(rag) is g, "the base graph of the rag")
    req(same_partition(vm.tolist(), lab.tolist()), "the regions are not those of the watershed", vm.tolist(), lab.tolist())
    name = {int(v): int(l) for v, l in zip(vm, lab)}
    s, t = (np.asarray(x).tolist() for x in rag.edge_list())
    req(rw.shape == (len(s),), "rag weights shape", rw.shape)
    req(sorted(tuple(sorted((name[a], name[b]))) for a, b in zip(s, t)) == sorted(tuple(sorted(k)) for k in agg), "edges of the rag")
    for i, (a, b) in enumerate(zip(s, t)):
        l = agg[frozenset((name[a], name[b]))]
        ex = sum(l) / len(l)
        req(abs(float(rw[i]) - ex) <= 1e-5 * (1 + abs(ex)), "frontier", (name[a], name[b]), "has value", rw[i], "expected", ex, "from the elements", l)
    # hierarchy: average linkage of these frontiers weighted by their number of elements
    tree, alt = hg.mean_pb_hierarchy(g, ew, **kw)
    alt = np.asarray(alt)
    leaf = hg.CptHierarchy.get_leaf_graph(tree)
    req(np.array_equal(np.asarray(hg.CptRegionAdjacencyGraph.get_vertex_map(leaf)), vm), "the leaves are not the regions of the watershed")
    req(np.asarray(hg.CptRegionAdjacencyGraph.get_edge_map(leaf)).tolist() == em, "edge map of the leaf graph")
    cnt = np.zeros(len(s), dtype=np.float64)
    for e in em:
        if e >= 0:
            cnt[e] += 1
    if len(s) and rag.num_vertices() > 1:
        t2, a2 = hg.binary_partition_tree_average_linkage(rag, rw.astype(np.float64), cnt)
        req(np.asarray(tree.parents()).tolist() == np.asarray(t2.parents()).tolist(), "the hierarchy is not the average linkage of the frontiers",
            np.asarray(tree.parents()).tolist(), np.asarray(t2.parents()).tolist(), rw.tolist(), cnt.tolist())
        req(np.allclose(alt, np.asarray(a2), rtol=1e-6, atol=1e-9), "altitudes", alt.tolist(), "expected", np.asarray(a2).tolist())
    else:
        req(tree.num_vertices() == 1, "hierarchy of one region", tree.num_vertices())
    if eo is not None:
        ctx.ev("orientations")
    ctx.ev("regions", rag.num_vertices())
    return len(s) >= 2


def c_multi(c, ctx):
    h, w = c["sh"]
    g, E = grid_edges(h, w)
    ew = weights(c["w"], "float64")
    others = [weights(o, "float64") for o in c["others"]]
    eo = None if c["o"] is None else np.asarray(c["o"]) * (math.pi / 8)
    kw = {} if eo is None else {"edge_orientations": eo}
    keep = [ew.copy()] + [o.copy() for o in others]
    tree, alt = hg.multiscale_mean_pb_hierarchy(g, ew, tuple(others), **kw)
    req(np.array_equal(ew, keep[0]) and all(np.array_equal(a, b) for a, b in zip(others, keep[1:])), "an argument was modified")
    tf, af = hg.mean_pb_hierarchy(g, ew, **kw)
    sal = np.array(hg.saliency(tf, af), dtype=np.float64)
    sv = np.asarray(hg.labelisation_hierarchy_supervertices(tf, af))
    total = sal.copy()
    for o in others:
        tc, ac = hg.mean_pb_hierarchy(g, o, **kw)
        total += np.asarray(hg.align_hierarchies(g, sv, [(tc, ac)])[0], dtype=np.float64)
    total /= 1 + len(others)
    t2, a2 = hg.mean_pb_hierarchy(g, total)
    # the average is only defined up to rounding: compare the saliency maps when no near tie can flip a merge
    u = np.unique(total)
    if len(u) > 1 and np.min(np.diff(u)) < 1e-9:
        raise Skip("near ties")
    s1, s2 = np.asarray(hg.saliency(tree, alt)), np.asarray(hg.saliency(t2, a2))
    if not np.allclose(s1, s2, rtol=1e-7, atol=1e-9):
        # a tie (also between values met while merging) may be broken either way by the rounding of the average
        rng = np.random.RandomState(len(E))
        for _ in range(40):
            s3 = np.asarray(hg.saliency(*hg.mean_pb_hierarchy(g, total * (1 + 1e-12 * rng.uniform(-1, 1, len(total))))))
            if not np.allclose(s3, s2, rtol=1e-7, atol=1e-9):
                raise Skip("near ties")
        req(False, "multiscale hierarchy", s1.tolist(), "expected", s2.tolist())
    return tf.num_leaves() >= 3 and float(np.max(total)) > 0


# ------------------------------------------------------------------ angles modulo pi

def s_angle(draw):
    n = G.integer(draw, 0, 12)
    return {"a": seq(draw, n, 48), "b": seq(draw, n, 48), "den": G.choice(draw, [48, 48, 47, 12]), "nd": G.boolean(draw)}


def c_angle(c, ctx):
    a, b = [np.array([min(x, c["den"]) for x in c[k]]) * (math.pi / c["den"]) for k in "ab"]
    if c["nd"] and len(a) % 2 == 0:
        a, b = a.reshape(2, -1), b.reshape(2, -1)
    a0, b0 = a.copy(), b.copy()
    m = np.asarray(hg.mean_angle_mod_pi(a, b))
    req(np.array_equal(a, a0) and np.array_equal(b, b0), "angles modified")
    req(m.shape == a.shape, "shape of the mean angles", m.shape)
    eps = 1e-9
    req(np.all((m >= 0) & (m <= math.pi + eps)), "mean angle out of range", m.tolist())

    def dist(x, y):
        d = np.mod(np.abs(x - y), math.pi)
        return np.minimum(d, math.pi - d)
    da, db, ab = dist(m, a), dist(m, b), dist(a, b)
    # the mean is at the middle of the shortest arc
    bad = (np.abs(da - db) > eps) | (np.abs(da + db - ab) > eps)
    req(not bad.any(), "mean angles", a[bad].tolist(), b[bad].tolist(), "got", m[bad].tolist())
    return bool((np.abs(a - b) > math.pi / 2 + eps).any())


def s_tri(draw):
    h, w = G.integer(draw, 1, G.sz(6, 2)), G.integer(draw, 1, G.sz(6, 2))
    return {"sh": [h, w], "v": seq(draw, h * w, 20), "size": G.integer(draw, 0, 5), "dt": G.choice(draw, ["float64", "uint8", "int32", "float32"]), "e": G.integer(draw, -6, 6)}


def c_tri(c, ctx):
    h, w = c["sh"]
    k = c["size"]
    im = np.array(c["v"]).reshape(h, w).astype(c["dt"])
    im0 = im.copy()
    got = np.asarray(hg.triangular_filter(im, k))
    ker = [k + 1 - abs(i) for i in range(-k, k + 1)]

    def at(i, n):
        """symmetric extension"""
        i %= 2 * n
        return i if i < n else 2 * n - 1 - i
    exp = [[sum(a * b * int(im0[at(y + dy, h), at(x + dx, w)]) for dy, a in zip(range(-k, k + 1), ker) for dx, b in zip(range(-k, k + 1), ker)) / (k + 1) ** 4
            for x in range(w)] for y in range(h)]
    req(got.shape == (h, w) and np.allclose(got, exp, rtol=1e-5, atol=1e-5), "triangular filter of size", k, got.tolist(), "expected", exp)
    if min(h, w) >= 2:
        x = im.astype(np.float64)
        o = np.asarray(hg.gradient_orientation(x, max(k, 1)))
        req(o.shape == (h, w) and np.all((o >= 0) & (o <= math.pi)), "gradient orientation", o.tolist())
        req(np.array_equal(o, hg.gradient_orientation(x * 2.0 ** c["e"], max(k, 1))), "gradient orientation depends on the scale of the values")
    req(np.array_equal(im, im0), "image modified")
    return k > 0 and h * w > 3


SUBTESTS = [
    Sub("khalimsky", s_khal, c_khal, 1500, rule="at least four edges with two weights"),
    Sub("contours", s_cut, c_contour, 3000, rule="a polyline of three elements or more"),
    Sub("perimeters", s_cut, c_perim, 1500, rule="at least two frontiers"),
    Sub("mean_pb", s_pb, c_pb, 1500, rule="at least two frontiers"),
    Sub("angles", s_angle, c_angle, 400, rule="a pair of angles that wraps around pi"),
    Sub("filter", s_tri, c_tri, 300, rule="a filter of positive size on four pixels or more"),
    Sub("multiscale", s_pb, c_multi, 500, rule="at least three regions"),
]
