"""P10: the tree of shapes is the inclusion tree of the image's shapes."""
import itertools
import numpy as np
import higra as hg
from vlib.core import Sub, req
from vlib import gen as G
from vlib.ref import T

DT = ["uint8", "uint16", "int32", "int64", "float32", "float64"]
EXTRA = ["int8", "int16", "uint32", "uint64", "bool"]


# ------------------------------------------------------------------ reference
def pad_value(img, padding):
    if padding == "zero":
        return 0
    idx = [i for i in np.ndindex(*img.shape) if any(x == 0 or x == s - 1 for x, s in zip(i, img.shape))]
    vals = [img[i].item() for i in idx]
    if img.dtype.kind in "iu":
        s = sum(vals)
        q = abs(s) // len(vals)
        return q if s >= 0 else -q
    return img.dtype.type(sum(float(v) for v in vals) / len(vals)).item()


def plain_map(img, padding, immersion):
    """lists lo, hi over the (padded, interpolated) grid, its shape, and the flat positions of the original pixels"""
    pad = 0 if padding == "none" else 1
    sh = [s + 2 * pad for s in img.shape]
    big = np.empty(sh, dtype=object)
    if pad:
        big[...] = pad_value(img, padding)
    big[tuple(slice(pad, s - pad) for s in sh)] = img.astype(object)
    if not immersion:
        f = [x for x in big.ravel()]
        pos = [int(np.ravel_multi_index([c + pad for c in i], sh)) for i in np.ndindex(*img.shape)]
        return f, f, sh, pos
    ks = [2 * s - 1 for s in sh]
    lo, hi = [], []
    for i in np.ndindex(*ks):
        cand = [big[j] for j in itertools.product(*[(c // 2,) if c % 2 == 0 else (c // 2, c // 2 + 1) for c in i])]
        lo.append(min(cand))
        hi.append(max(cand))
    pos = [int(np.ravel_multi_index([2 * (c + pad) for c in i], ks)) for i in np.ndindex(*img.shape)]
    return lo, hi, ks, pos


def neighbours(sh):
    st = [1] * len(sh)
    for k in range(len(sh) - 2, -1, -1):
        st[k] = st[k + 1] * sh[k + 1]
    out = []
    for i in np.ndindex(*sh):
        b = sum(c * s for c, s in zip(i, st))
        l = []
        for k, c in enumerate(i):
            if c > 0:
                l.append(b - st[k])
            if c < sh[k] - 1:
                l.append(b + st[k])
        out.append(l)
    return out


def comps(member, nb):
    seen = [False] * len(member)
    for v in range(len(member)):
        if member[v] and not seen[v]:
            seen[v] = True
            st, c = [v], []
            while st:
                x = st.pop()
                c.append(x)
                for y in nb[x]:
                    if member[y] and not seen[y]:
                        seen[y] = True
                        st.append(y)
            yield c


def saturate(c, n, nb, ext):
    """complement of the component of the complement of c holding ext (whole domain if c holds ext)"""
    m = [True] * n
    for x in c:
        m[x] = False
    if not m[ext]:
        return frozenset(range(n))
    st = [ext]
    m[ext] = False
    out = set([ext])
    while st:
        x = st.pop()
        for y in nb[x]:
            if m[y]:
                m[y] = False
                out.add(y)
                st.append(y)
    return frozenset(i for i in range(n) if i not in out)


def shapes(lo, hi, nb, ext):
    n = len(lo)
    fam = {frozenset(range(n))}
    for lv in sorted(set(lo) | set(hi)):
        for c in comps([x > lv for x in lo], nb):
            fam.add(saturate(c, n, nb, ext))
        for c in comps([x < lv for x in hi], nb):
            fam.add(saturate(c, n, nb, ext))
    return fam


def restrict(fam, pos):
    inv = {p: i for i, p in enumerate(pos)}
    out = set()
    for s in fam:
        k = frozenset(inv[x] for x in s if x in inv)
        if k:
            out.add(k)
    return out


# ------------------------------------------------------------------ cases
def image(draw, dim, mx, extra=False):
    sh = [G.integer(draw, 1, G.sz(mx, dim)) for _ in range(dim)]
    n = int(np.prod(sh))
    w = G.weights(draw, n, dtypes=DT, kinds=["ties", "ties", "small"], layout=False)
    if draw(G.st.integers(0, 7)) == 0:
        d = np.dtype(w["dtype"])
        if d.kind == "f":
            pal = [0.0, 2.0 ** 20, -2.0 ** 20, 0.125, 1.0]
        else:
            i = np.iinfo(d)
            pal = [int(i.max), int(i.min), int(i.max) - 1, 0, int(i.max) // 2 + 3]
        w["v"] = [pal[int(abs(x) * 2) % len(pal)] for x in w["v"]]
    w["sh"] = sh
    w["lay"] = draw(G.st.integers(0, 8))
    return w


def img_of(w):
    a = np.array(w["v"], dtype=w["dtype"]).reshape(w["sh"])
    if w["lay"] == 1:
        a = np.asfortranarray(a)
    elif w["lay"] == 2:
        b = np.zeros([2 * s for s in a.shape], a.dtype)
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        a = b[tuple(slice(None, None, 2) for _ in a.shape)]
    return a


def s_tos(dim, mx):
    def f(draw):
        w = image(draw, dim, mx)
        padding = G.choice(draw, ["none", "mean", "zero"])
        imm = draw(G.st.integers(0, 4)) > 0
        pad = 0 if padding == "none" else 1
        full = [((s + 2 * pad) * 2 - 1) if imm else s + 2 * pad for s in w["sh"]]
        n = int(np.prod(full))
        kind = draw(G.st.integers(0, 3))
        ext = 0 if kind < 2 else (n - 1 if kind == 2 else draw(G.st.integers(0, n - 1)))
        return {"im": w, "pad": padding, "imm": imm, "orig": draw(G.st.booleans()), "ext": ext,
                "defaults": draw(G.st.integers(0, 9)) == 0, "wrap": draw(G.st.booleans())}
    return f


def c_tos(c, ctx):
    img = img_of(c["im"])
    dim = img.ndim
    im0 = img.copy()
    if c["defaults"]:
        c = dict(c, pad="mean", imm=True, orig=True, ext=0)
        kw = {}
    else:
        kw = {"padding": c["pad"], "original_size": c["orig"], "immersion": c["imm"], "exterior_vertex": c["ext"]}
    fn = hg.component_tree_tree_of_shapes_image
    if c["wrap"]:
        fn = hg.component_tree_tree_of_shapes_image2d if dim == 2 else hg.component_tree_tree_of_shapes_image3d
    t, a = fn(img, **kw)
    req(np.array_equal(img, im0), "image modified")
    lo, hi, sh, pos = plain_map(img, c["pad"], c["imm"])
    ext = c["ext"]
    full = not c["orig"] or (not c["imm"] and c["pad"] == "none")
    exp_shape = tuple(sh) if full else tuple(img.shape)
    N = int(np.prod(exp_shape))
    req(t.num_leaves() == N, "number of leaves", t.num_leaves(), exp_shape)
    req(t.category() == hg.TreeCategory.ComponentTree, "category")
    g = hg.CptHierarchy.get_leaf_graph(t)
    req(tuple(hg.CptGridGraph.get_shape(g)) == exp_shape, "shape of the leaf graph", hg.CptGridGraph.get_shape(g), exp_shape)
    req(a.dtype == img.dtype and len(a) == t.num_vertices(), "altitudes")
    p = t.parents().tolist()
    r = T(p)
    al = a.tolist()
    lp = pos if full else list(range(N))
    u = [x.item() for x in img.ravel()]
    # reconstruction
    req([al[i] for i in lp] == u, "altitudes of the pixels", [al[i] for i in lp], u)
    req([al[p[i]] for i in range(N)] == al[:N], "leaf does not take the level of its parent")
    rec = hg.reconstruct_leaf_data(t, a)
    req(rec.shape == exp_shape and rec.ravel().tolist() == al[:N], "reconstruction")
    for i in range(N, r.n - 1):
        req(al[i] != al[p[i]], "node at the level of its parent", i, al)
    if full:
        for i in range(N):
            req(lo[i] <= al[i] <= hi[i], "interpolated value out of its interval", i, al[i], lo[i], hi[i])
    if c["imm"]:
        if c["orig"]:
            # the tree in the whole interpolated space defines the pixel shapes
            tf, af = hg.component_tree_tree_of_shapes_image(img, c["pad"], False, True, c["ext"])
            rf = T(tf.parents().tolist())
            NF = tf.num_leaves()
        else:
            rf, af, NF = r, a, N
        u2 = af.tolist()[:NF]
        nb = neighbours(sh)
        n = len(lo)
        # the interpolation selects a value in each interval and propagates from the exterior
        for i in range(n):
            req(lo[i] <= u2[i] <= hi[i], "interpolated value out of its interval", i, u2[i], lo[i], hi[i])
            req(i == ext or any(u2[i] == min(hi[i], max(lo[i], u2[j])) for j in nb[i]), "interpolation", i, u2)
        # tree of shapes of the interpolated image from its definition
        fam = shapes(u2, u2, nb, ext)
        nodes = rf.leaves_of[NF:]
        req(len(set(nodes)) == len(nodes), "region appears twice")
        req(set(nodes) == fam, "shapes", sorted(map(sorted, nodes)), sorted(map(sorted, fam)))
        req(all(rf.leaves_of[i] < rf.leaves_of[rf.p[i]] for i in range(NF, rf.n - 1)), "inclusion")
        if ext == 0 and c["pad"] != "none":
            req(u2[ext] == pad_value(img, c["pad"]) and af[rf.root] == u2[ext], "root level", af[rf.root])
        req(rf.p[ext] == rf.root, "the exterior point does not hang under the root")
        if c["orig"]:
            exp = restrict(fam, pos)
            got = set(r.leaves_of[N:])
            req(got == exp, "shapes restricted to the pixels", sorted(map(sorted, got)), sorted(map(sorted, exp)))
            for v in range(N):
                S = rf.leaves_of[rf.p[pos[v]]]
                k = restrict([S], pos)
                req(r.leaves_of[p[v]] in k, "smallest shape of pixel", v)
    ngot = len(set(r.leaves_of[N:]))
    ctx.ev("%s%s%s" % (c["pad"], " immersed" if c["imm"] else "", " full" if full else ""))
    ctx.ev(c["im"]["dtype"])
    return len(u) > 3 and len(set(u)) > 1 and ngot > 2


def c_dual(c, ctx):
    img = img_of(c["im"])
    if img.dtype.kind == "u":
        img = img.astype(np.int64)
    if img.dtype.kind == "i" and img.size and int(img.min()) == np.iinfo(img.dtype).min:
        img = np.clip(img, np.iinfo(img.dtype).min + 1, None)
    kw = {"padding": c["pad"], "original_size": c["orig"], "immersion": True,
          "exterior_vertex": c["ext"] if c["imm"] else 0}
    fn = hg.component_tree_tree_of_shapes_image
    t1, a1 = fn(img, **kw)
    t2, a2 = fn(-img, **kw)
    N = t1.num_leaves()
    # shapes, each with the level at which it is reached
    f1, f2 = {}, {}
    for t, a, f, s in ((t1, a1, f1, 1), (t2, a2, f2, -1)):
        r = T(t.parents().tolist())
        if c["orig"]:
            for i in range(N):
                f[r.leaves_of[r.p[i]]] = s * a[i].item()
        else:
            for i in range(N, r.n):
                if (r.leaves_of[i]) not in f:
                    f[r.leaves_of[i]] = 0
    if c["orig"]:
        req(f1 == f2, "tree of shapes of the negated image", sorted(map(sorted, f1)), sorted(map(sorted, f2)))
    # distinct pixel sets
    s1 = set(T(t1.parents().tolist()).leaves_of[N:])
    s2 = set(T(t2.parents().tolist()).leaves_of[N:])
    if c["orig"]:
        req(s1 == s2, "shapes of the negated image")
    ctx.ev(c["pad"])
    return img.size > 3 and len(s1) > 2


# ------------------------------------------------------------------ multivariate version
def s_multi(draw):
    w = image(draw, 2, 5)
    return {"im": w, "pad": G.choice(draw, ["none", "mean", "zero"]), "imm": draw(G.st.integers(0, 4)) > 0,
            "orig": draw(G.st.booleans()), "bands": G.choice(draw, [2, 3]),
            "w2": G.weights(draw, len(w["v"]), dtypes=w["dtype"], kinds=["ties"], layout=False) if draw(G.st.booleans()) else None}


def c_multi(c, ctx):
    img = img_of(c["im"])
    kw = {"padding": c["pad"], "original_size": c["orig"], "immersion": c["imm"]}
    if c["w2"] is None:
        bands = np.stack([img] * c["bands"], axis=2)
    else:
        bands = np.stack([img, np.array(c["w2"]["v"], dtype=img.dtype).reshape(img.shape)], axis=2)
    t = hg.component_tree_multivariate_tree_of_shapes_image2d(bands, **kw)
    pad = 0 if c["pad"] == "none" else 1
    full = not c["orig"]
    sh = [((s + 2 * pad) * 2 - 1) if c["imm"] else s + 2 * pad for s in img.shape] if full else list(img.shape)
    n = int(np.prod(sh))
    req(t.num_leaves() == n, "leaves", t.num_leaves(), sh)
    r = T(t.parents().tolist())
    req(tuple(hg.CptGridGraph.get_shape(hg.CptHierarchy.get_leaf_graph(t))) == tuple(sh), "shape of the leaf graph")
    if c["w2"] is None and c["imm"] and c["orig"]:
        t2, _ = hg.component_tree_tree_of_shapes_image2d(img, **kw)
        s2 = set(T(t2.parents().tolist()).leaves_of[n:])
        s1 = set(r.leaves_of[n:])
        req(s1 == s2, "shapes of the multivariate tree of a single band", sorted(map(sorted, s1)), sorted(map(sorted, s2)))
        ctx.ev("identical bands")
    else:
        ctx.ev("two bands")
    return n > 3 and r.n > n + 1


SUBTESTS = [
    Sub("image2d", s_tos(2, 5), c_tos, 1600, rule="more than 3 pixels and more than 2 shapes", shard=100),
    Sub("image3d", s_tos(3, 3), c_tos, 350, rule="more than 3 pixels and more than 2 shapes", shard=44),
    Sub("duality", s_tos(2, 6), c_dual, 1200, rule="more than 3 pixels and more than 2 shapes", shard=150),
    Sub("multivariate", s_multi, c_multi, 1000, rule="more than 3 pixels and at least two nodes", shard=125),
]
