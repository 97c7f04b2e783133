"""P22: bipartiteness test, minimum weight maximum cardinality matching, pixel matching."""
import contextlib
import io
import numpy as np
import higra as hg
from vlib.core import Sub, req, Skip
from vlib import gen as G
from vlib.ref import UF, arr
from vlib.hgc import mk_graph


def seq(draw, n, hi):
    """n integers in [0, hi]"""
    return G.seq(draw, n, hi + 1)


# ------------------------------------------------------------------ bipartiteness
def s_test(draw):
    shape = G.choice(draw, ["any", "any", "bip", "bip", "cycle", "tree"])
    n = G.integer(draw, 1, G.sz(16))
    if shape == "any":
        g = G.graph(draw, 12, 1, 14)
        return {"n": g["n"], "s": g["s"], "t": g["t"], "rm": seq(draw, 3, 30) if G.boolean(draw) else []}
    if shape == "bip":
        col = seq(draw, n, 1)
        A = [i for i in range(n) if col[i] == 0]
        B = [i for i in range(n) if col[i] == 1]
        if not A or not B:
            return {"n": n, "s": [], "t": [], "rm": []}
        m = G.integer(draw, 0, 2 * n)
        a, b, sw = seq(draw, m, len(A) - 1), seq(draw, m, len(B) - 1), seq(draw, m, 1)
        e = [(A[a[i]], B[b[i]])[::1 if sw[i] else -1] for i in range(m)]
    elif shape == "cycle":
        perm = seq(draw, n, 1000)
        o = sorted(range(n), key=lambda i: (perm[i], i))
        e = [(o[i], o[(i + 1) % n]) for i in range(n)] if n > 2 else []
        k = G.integer(draw, 0, 3)
        x, y = seq(draw, k, n - 1), seq(draw, k, n - 1)
        e += list(zip(x, y))
    else:
        q = seq(draw, n, 1000)
        e = [(i, q[i] % i) for i in range(1, n)]
        x, y = G.integer(draw, 0, n - 1), G.integer(draw, 0, n - 1)
        if G.boolean(draw):
            e.append((x, y))
    return {"n": n, "s": [x for x, _ in e], "t": [y for _, y in e], "rm": []}


def two_colourable(n, E):
    uf = UF(2 * n)
    for a, b in E:
        uf.union(a, b + n)
        uf.union(b, a + n)
    return all(uf.find(v) != uf.find(v + n) for v in range(n))


def c_test(c, ctx):
    n = c["n"]
    E = list(zip(c["s"], c["t"]))
    exp = two_colourable(n, E)
    rep = {}
    g = mk_graph(c)
    for x in c["rm"]:
        if E:
            g.remove_edge(x % len(E))
    if c["rm"] and E:
        ctx.ev("removed edges")
        dead = {x % len(E) for x in c["rm"]}
        E1 = [e for i, e in enumerate(E) if i not in dead]
    else:
        E1 = E
    exp1 = two_colourable(n, E1)
    variants = [("graph", lambda **k: hg.is_bipartite_graph(g, **k), E1, exp1)]
    if E:
        # the triplet form is documented for arrays and an integer
        variants.append(("triplet", lambda **k: hg.is_bipartite_graph((np.asarray(c["s"]), np.asarray(c["t"]), n), **k), E, exp))
    for name, f, ee, ex in variants:
        r, col = f()
        req(bool(r) == ex, name, "is_bipartite answers", r, "for n", n, "edges", ee)
        if ex:
            col = np.asarray(col)
            req(col.shape == (n,), name, "colouring shape", col.shape)
            req(set(col.tolist()) <= {0, 1}, name, "colours", col.tolist())
            req(all(col[a] != col[b] for a, b in ee), name, "edge with one colour", col.tolist(), ee)
        else:
            req(np.asarray(col).size == 0, name, "colouring of a non bipartite graph", col)
        r2 = f(return_coloring=False)
        req(isinstance(r2, (bool, np.bool_)) and bool(r2) == ex, name, "return_coloring=False returns", r2)
    ctx.ev("bipartite" if exp else "odd cycle")
    return len(E1) >= 2


# ------------------------------------------------------------------ matching
def best_matching(edges, w):
    """(cardinality, weight) of a minimum weight maximum cardinality matching: successive shortest paths, exact integers"""
    left = sorted({a for a, _ in edges})
    best = {}
    for (a, b), x in zip(edges, w):
        if (a, b) not in best or x < best[(a, b)]:
            best[(a, b)] = x
    adj = {a: [] for a in left}
    for (a, b), x in best.items():
        adj[a].append((b, x))
    ml, mr = {}, {}
    total = 0
    while True:
        # Bellman-Ford from the free left vertices
        dl = {a: (0 if a not in ml else None) for a in left}
        dr, pr = {}, {}
        changed = True
        while changed:
            changed = False
            for a in left:
                if dl[a] is None:
                    continue
                for b, x in adj[a]:
                    if ml.get(a) == b:
                        continue
                    d = dl[a] + x
                    if b not in dr or d < dr[b]:
                        dr[b] = d
                        pr[b] = a
                        changed = True
                        if b in mr:
                            a2 = mr[b]
                            d2 = d - best[(a2, b)]
                            if dl[a2] is None or d2 < dl[a2]:
                                dl[a2] = d2
        free = [b for b in dr if b not in mr]
        if not free:
            break
        b = min(free, key=lambda q: (dr[q], q))
        total += dr[b]
        while True:
            a = pr[b]
            prev = ml.get(a)
            ml[a] = b
            mr[b] = a
            if prev is None:
                break
            b = prev
    return len(ml), total


LEVELS = {"tiny": 1, "small": 6, "mid": 1000, "neg": 9, "big": 2 ** 31 + 7, "int": 2 ** 33 + 3, "equal": 0, "huge": 2 ** 40 + 1, "extreme": 2 ** 55 + 5}


def s_match(draw):
    nl, nr = G.integer(draw, 1, 6), G.integer(draw, 1, 6)
    extra = G.integer(draw, 0, 3)          # isolated vertices
    n = nl + nr + extra
    m = G.integer(draw, 0, 14) if G.integer(draw, 0, 3) == 0 else G.integer(draw, 6, 18)
    a, b, sw = seq(draw, m, nl - 1), seq(draw, m, nr - 1), seq(draw, m, 1)
    key = seq(draw, n, 1000)
    name = sorted(range(n), key=lambda i: (key[i], i))
    e = [(name[a[i]], name[nl + b[i]]) for i in range(m)]
    e = [x if sw[i] else x[::-1] for i, x in enumerate(e)]
    k = G.choice(draw, sorted(LEVELS))
    w = seq(draw, m, 12)
    hi = LEVELS[k]
    off = G.choice(draw, [0, 0, 0, -3, 5, -1000, 2 ** 40, -2 ** 40])
    if k == "extreme" and G.integer(draw, 0, 2):
        k = "huge"
        hi = LEVELS[k]
    if k in ("big", "int", "huge", "extreme"):
        w = [(x * hi) // 12 + (x % 3) for x in w]
    else:
        w = [x % (hi + 1) for x in w]
    if k == "neg":
        w = [x - 5 for x in w]
    w = [x + off for x in w]
    dt = G.choice(draw, ["int64", "int64", "int32", "uint8", "float64", "list", "int16", "uint64"])
    return {"n": n, "s": [x for x, _ in e], "t": [y for _, y in e], "w": w, "dt": dt, "form": G.choice(draw, ["graph", "triplet", "lists"])}


def weights_as(w, dt):
    if dt == "list":
        return list(w)
    if dt == "float64":
        return np.asarray([float(x) for x in w])
    i = np.iinfo(dt)
    if any(x < i.min or x > i.max for x in w) or (dt == "uint64" and any(x >= 2 ** 63 for x in w)):
        return np.asarray(w, dtype=np.int64)
    return np.asarray(w, dtype=dt)


def call(graph, w):
    with contextlib.redirect_stdout(io.StringIO()):
        return np.asarray(hg.bipartite_graph_matching(graph, w))


def c_match(c, ctx):
    n, m = c["n"], len(c["s"])
    E = list(zip(c["s"], c["t"]))
    w = c["w"]
    if c["form"] == "graph":
        g = mk_graph(c)
    elif not m:
        raise Skip("empty triplet")
    elif c["form"] == "triplet":
        g = (np.asarray(c["s"]), np.asarray(c["t"]), n)
    else:
        g = (c["s"], c["t"], n)
    try:
        res = call(g, weights_as(w, c["dt"]))
    except ValueError:
        # weights whose range is too large for the solver are rejected
        req((max(w) - min(w)) * n * n > 2 ** 44, "weights rejected", w)
        ctx.ev("rejected range")
        return False
    ids = res.tolist()
    req(len(set(ids)) == len(ids), "repeated edge in the matching", ids)
    req(all(isinstance(i, int) and 0 <= i < m for i in ids), "edge index out of range", ids, m)
    ends = [v for i in ids for v in E[i]]
    req(len(set(ends)) == len(ends), "two edges of the matching share a vertex", ids, E)
    col = proper(n, E)
    ee = [(a, b) if col[a] == 0 else (b, a) for a, b in E]
    card, tot = best_matching(ee, w)
    req(len(ids) == card, "cardinality", len(ids), "maximum", card, "edges", E, "weights", w)
    got = sum(w[i] for i in ids)
    req(got == tot, "total weight", got, "minimum", tot, "edges", E, "weights", w, "matching", ids)
    ctx.ev("perfect" if 2 * card == n else "imperfect")
    if len(set(E)) < m:
        ctx.ev("parallel edges")
    if max(w, default=0) - min(w, default=0) > 2 ** 31:
        ctx.ev("weight range beyond 32 bits")
    return card >= 2 and m > card


def proper(n, E):
    adj = [[] for _ in range(n)]
    for a, b in E:
        adj[a].append(b)
        adj[b].append(a)
    col = [None] * n
    for v in range(n):
        if col[v] is None:
            col[v] = 0
            st = [v]
            while st:
                x = st.pop()
                for y in adj[x]:
                    if col[y] is None:
                        col[y] = 1 - col[x]
                        st.append(y)
    return col


# ------------------------------------------------------------------ larger matchings (against scipy)
def s_large(draw):
    nl, nr = G.integer(draw, 5, G.sz(40)), G.integer(draw, 5, G.sz(40))
    deg = G.integer(draw, 1, 5)
    return {"nl": nl, "nr": nr, "b": seq(draw, nl * deg, nr - 1), "w": seq(draw, nl * deg, G.choice(draw, [1, 4, 100, 1000])), "deg": deg}


def c_large(c, ctx):
    nl, nr, deg = c["nl"], c["nr"], c["deg"]
    E = [(i // deg, nl + b) for i, b in enumerate(c["b"])]
    w = c["w"]
    g = {"n": nl + nr, "s": [a for a, _ in E], "t": [b for _, b in E]}
    ids = call(mk_graph(g), np.asarray(w)).tolist()
    ends = [v for i in ids for v in E[i]]
    req(len(set(ends)) == len(ends), "two edges of the matching share a vertex", ids)
    from scipy.optimize import linear_sum_assignment
    pen = 10 ** 6
    M = np.full((nl, nr), float(pen))
    for (a, b), x in zip(E, w):
        M[a, b - nl] = min(M[a, b - nl], x)
    r, cc = linear_sum_assignment(M)
    card = int((M[r, cc] < pen).sum())
    tot = int(M[r, cc][M[r, cc] < pen].sum())
    req(len(ids) == card, "cardinality", len(ids), "maximum", card)
    req(sum(w[i] for i in ids) == tot, "total weight", sum(w[i] for i in ids), "minimum", tot)
    return card >= 5


# ------------------------------------------------------------------ rejection
def s_bad(draw):
    c = s_match(draw)
    c["bad"] = G.choice(draw, ["odd", "wlen", "range", "negative", "lengths", "mode", "dist", "large", "none"])
    c["k"] = G.integer(draw, 0, 5)
    return c


def raises(types, f, what):
    try:
        r = f()
    except types:
        return
    except Exception as e:                      # noqa
        req(False, what, "raised", type(e).__name__, e)
    req(False, what, "was accepted:", r)


def c_bad(c, ctx):
    n, s, t, w = c["n"], list(c["s"]), list(c["t"]), list(c["w"])
    k = c["bad"]
    ctx.ev(k)
    any_exc = (ValueError, TypeError, RuntimeError, IndexError)
    if k == "odd":
        # an odd cycle on three new vertices
        s += [n, n + 1, n + 2]
        t += [n + 1, n + 2, n]
        w += [1, 1, 1]
        gg = {"n": n + 3, "s": s, "t": t}
        raises(ValueError, lambda: call(mk_graph(gg), w), "matching of a non bipartite graph")
        raises(any_exc, lambda: call((np.asarray(s), np.asarray(t), n + 3), w), "matching of a non bipartite triplet")
    elif k == "wlen":
        w2 = w + [1] * (1 + c["k"] % 2) if c["k"] % 3 else w[:-1]
        if len(w2) == len(w):
            return False
        raises(any_exc, lambda: call(mk_graph(c), w2), "weights of the wrong length")
    elif k == "range":
        if not s:
            return False
        s[c["k"] % len(s)] = n + c["k"]
        raises(any_exc, lambda: hg.is_bipartite_graph((np.asarray(s), np.asarray(t), n)), "out of range vertex")
        raises(any_exc, lambda: call((np.asarray(s), np.asarray(t), n), w), "out of range vertex")
    elif k == "negative":
        if not s:
            return False
        t[c["k"] % len(s)] = -1 - c["k"]
        raises(any_exc, lambda: hg.is_bipartite_graph((np.asarray(s), np.asarray(t), n)), "negative vertex")
        raises(any_exc, lambda: call((np.asarray(s), np.asarray(t), n), w), "negative vertex")
    elif k == "lengths":
        if not s:
            return False
        raises(any_exc, lambda: hg.is_bipartite_graph((np.asarray(s + [0]), np.asarray(t), n)), "sources longer than targets")
        raises(any_exc, lambda: call((np.asarray(s + [0]), np.asarray(t), n), w), "sources longer than targets")
    elif k == "mode":
        im = np.ones((2, 3))
        raises(ValueError, lambda: hg.match_pixels_image_2d(im, im, 1.0, "other"), "unknown mode")
    elif k == "dist":
        im = np.ones((2, 3))
        raises(ValueError, lambda: hg.match_pixels_image_2d(im, im, -0.5), "negative distance")
    elif k == "large":
        gg = {"n": 4, "s": [0, 1, 0], "t": [2, 3, 3]}
        raises(ValueError, lambda: call(mk_graph(gg), [0, 2 ** 61 + c["k"], 3]), "weights too large")
    elif k == "none":
        raises(TypeError, lambda: hg.is_bipartite_graph(None), "not a graph")
    return True


# ------------------------------------------------------------------ pixel matching
def s_pix(draw):
    h, w = G.integer(draw, 1, G.sz(6, 2)), G.integer(draw, 1, G.sz(6, 2))
    k1, k2 = G.choice(draw, [1, 2, 4]), G.choice(draw, [1, 2, 4])
    v1, v2 = seq(draw, h * w, k1), seq(draw, h * w, k2)
    return {"sh": [h, w], "a": [max(0, x - k1 + 1) if k1 > 1 else x for x in v1], "b": [max(0, x - k2 + 1) if k2 > 1 else x for x in v2],
            "d": G.choice(draw, [0.0, 0.5, 0.9, 1.0, 1.1, 1.42, 1.9, 2.1, 2.24, 2.9, 3.3, 10.0]),
            "mode": G.choice(draw, ["absolute", "absolute", "relative", "default"]),
            "dt": G.choice(draw, ["int32", "float64", "uint8", "bool", "float32"]), "neg": draw(G.st.booleans())}


def c_pix(c, ctx):
    h, w = c["sh"]
    a, b = arr({"v": c["a"], "dtype": "int64"}).reshape(h, w), arr({"v": c["b"], "dtype": "int64"}).reshape(h, w)
    if c["neg"] and c["dt"] not in ("uint8", "bool"):
        a = np.where(a == 0, -1, a)                # non positive pixels are missing pixels
        b = np.where(b == 0, -2, b)
    a, b = a.astype(c["dt"]), b.astype(c["dt"])
    diag = np.sqrt(h * h + w * w)
    with contextlib.redirect_stdout(io.StringIO()):
        if c["mode"] == "absolute":
            lim = c["d"]
            s, t = hg.match_pixels_image_2d(a, b, c["d"], "absolute")
        elif c["mode"] == "relative":
            lim = c["d"] / 4 * diag
            s, t = hg.match_pixels_image_2d(a, b, c["d"] / 4)
        else:
            lim = 0.0075 * diag
            s, t = hg.match_pixels_image_2d(a, b)
    s, t = np.asarray(s).tolist(), np.asarray(t).tolist()
    P1 = [i for i in range(h * w) if a.reshape(-1)[i] > 0]
    P2 = [i for i in range(h * w) if b.reshape(-1)[i] > 0]
    req(len(s) == len(t), "sources and targets have different sizes")
    req(len(set(s)) == len(s) and len(set(t)) == len(t), "a pixel is matched twice", s, t)
    req(set(s) <= set(P1) and set(t) <= set(P2), "a missing pixel is matched", s, t)

    def dist(i, j):
        return float(np.hypot(i // w - j // w, i % w - j % w))

    tol = 1e-9
    req(all(dist(i, j) <= lim + tol for i, j in zip(s, t)), "a pair farther than the limit", lim, [dist(i, j) for i, j in zip(s, t)])

    def opt(limit):
        E, W = [], []
        for i in P1:
            for j in P2:
                d = dist(i, j)
                if d <= limit:
                    E.append((i, j))
                    W.append(int(d * 10 ** 9))
        return best_matching(E, W) if E else (0, 0)

    c_hi, t_hi = opt(lim + tol)
    c_lo, t_lo = opt(lim - tol)
    tot = sum(dist(i, j) for i, j in zip(s, t))
    # whether a distance equal to the limit is accepted is left open; costs are compared up to the documented internal rounding
    ok = any(len(s) == cc and tot <= tt / 1e9 + 1e-3 * len(s) + 1e-6 for cc, tt in ((c_hi, t_hi), (c_lo, t_lo)))
    req(ok, "matched", len(s), "pairs of total length", tot, "optimum", (c_hi, t_hi / 1e9), (c_lo, t_lo / 1e9), "limit", lim, "images", a.tolist(), b.tolist())
    ctx.ev("matched pairs", len(s))
    return len(s) >= 2 and c_hi < max(len(P1), len(P2))


SUBTESTS = [
    Sub("is_bipartite", s_test, c_test, 4000, rule="at least two edges"),
    Sub("matching", s_match, c_match, 3000, rule="at least two matched edges and an unmatched one"),
    Sub("matching_large", s_large, c_large, 500, rule="at least five matched edges"),
    Sub("rejection", s_bad, c_bad, 1200, rule="an invalid argument was built"),
    Sub("match_pixels", s_pix, c_pix, 1500, rule="two pairs or more, and a pixel left unmatched"),
]
