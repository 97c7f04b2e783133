"""Hypothesis strategies producing plain JSON-able data (so that every case is its own replay)."""
import random
from hypothesis import strategies as st

INT_DTYPES = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"]
FLOAT_DTYPES = ["float32", "float64"]
ALL_DTYPES = INT_DTYPES + FLOAT_DTYPES

composite = st.composite
SCALE = 1     # > 1 in the jobs that run a sub-test on larger inputs ("big" in vlib.core.Sub)


def sz(n, d=1):
    """upper bound of a size (d: of one of the d dimensions of a grid)"""
    return n if SCALE == 1 else int(n * SCALE ** (1.0 / d))


def seq(draw, n, hi):
    """n integers in [0, hi)"""
    if n <= 0:
        return []
    if hi <= 1:
        return [0] * n
    if n >= 200 or n >= 3 and draw(st.integers(0, 3)) >= 2:  # well spread values (the bytes below are often repetitive)
        r = random.Random(seed32(draw))
        return [r.randrange(hi) for _ in range(n)]
    if hi <= 256:
        b = draw(st.binary(min_size=n, max_size=n))
        return [x % hi for x in b]
    b = draw(st.binary(min_size=4 * n, max_size=4 * n))
    return [int.from_bytes(b[4 * i:4 * i + 4], "big") % hi for i in range(n)]


def integer(draw, lo, hi):
    return draw(st.integers(lo, hi))


def choice(draw, xs):
    return draw(st.sampled_from(list(xs)))


def boolean(draw):
    return draw(st.booleans())


def seed32(draw):
    return int.from_bytes(draw(st.binary(min_size=4, max_size=4)), "big")


# ---------------------------------------------------------------- trees
def parents_from(L, I, b, unary=True, binary=False, maxk=6):
    """Valid parent array with L leaves and at most I inner nodes, driven by byte list b."""
    import itertools
    it = itertools.chain(b, itertools.repeat(0))
    pool = list(range(L))
    parents = []
    par = {}
    nxt = L
    while True:
        last = (nxt - L == I - 1)
        if binary:
            if len(pool) == 1:
                break
            k = 2
        elif last:
            k = len(pool)
        else:
            s = next(it)
            if unary and s < 40:
                k = 1
            elif s < 170:
                k = 2
            else:
                k = 2 + s % maxk
            k = min(k, len(pool))
            if not unary and len(pool) == 1:
                break
        ch = []
        for _ in range(k):
            ch.append(pool.pop(next(it) % len(pool)) if len(pool) > 1 else pool.pop(0))
        for c in ch:
            par[c] = nxt
        pool.append(nxt)
        nxt += 1
        if nxt - L >= I and not binary:
            break
        if binary and len(pool) == 1:
            break
        if not unary and len(pool) == 1:
            break
    root = nxt - 1
    # the root must own everything
    for p in pool:
        if p != root:
            par[p] = root
    par[root] = root
    return [par[i] for i in range(nxt)]


def tree(draw, max_leaves=10, max_inner=10, unary=True, binary=False, big=0, single=True, min_leaves=1):
    """parent array (list). big: if >0, sometimes a large tree up to `big` leaves (drawn seed)."""
    if big and draw(st.integers(0, 7)) == 0:
        r = random.Random(seed32(draw))
        L = r.randint(max(min_leaves, 2), big)
        I = L - 1 if binary else r.randint(1, big)
        mode = r.randint(0, 2)
        if mode == 0:
            b = [r.randrange(256) for _ in range(6 * (L + I))]
        elif mode == 1:  # caterpillar like
            b = [0 if r.random() < .8 else r.randrange(256) for _ in range(6 * (L + I))]
        else:
            b = [r.choice([100, 255, 3]) for _ in range(6 * (L + I))]
        return parents_from(L, I, b, unary, binary)
    if single and min_leaves <= 1 and draw(st.integers(0, 40)) == 40:
        return [0]
    L = draw(st.integers(max(min_leaves, 2 if binary else 1), sz(max_leaves) if max_leaves > min_leaves else max_leaves))
    I = L - 1 if binary else draw(st.integers(1, sz(max_inner)))
    n = 2 * L if binary else 4 * I + L
    if n >= 200 or draw(st.integers(0, 2)):     # drawn bytes are often repetitive, which gives chains and stars
        r = random.Random(seed32(draw))
        lo = r.choice([0, 0, 40])   # 40: no one-child node
        b = [r.randrange(lo, 256) for _ in range(n)]
    else:
        b = list(draw(st.binary(min_size=n, max_size=n)))
    return parents_from(L, I, b, unary, binary)


# ---------------------------------------------------------------- graphs
def graph(draw, max_v=8, min_v=1, extra=8, connected=True, multi=True, loops=False):
    """dict(n, s, t): edges in arbitrary order and orientation."""
    n = draw(st.integers(min_v, sz(max_v) if max_v > min_v else max_v))
    es = []
    if connected:
        a = seq(draw, n - 1, max(256, n))
        for i in range(1, n):
            es.append((a[i - 1] % i, i))
    ne = draw(st.integers(0, sz(extra))) if n else 0
    b = seq(draw, 2 * ne, n)
    for k in range(ne):
        s, t = b[2 * k], b[2 * k + 1]
        if s == t and not loops:
            continue
        es.append((s, t))
    if not multi:
        seen = set()
        es2 = []
        for s, t in es:
            k = (min(s, t), max(s, t))
            if k not in seen:
                seen.add(k)
                es2.append((s, t))
        es = es2
    m = len(es)
    key = seq(draw, m, 256)
    order = sorted(range(m), key=lambda i: (key[i] >> 1, i))
    out = []
    for i in order:
        s, t = es[i]
        out.append((t, s) if key[i] & 1 else (s, t))
    perm = None
    if n > 1 and draw(st.booleans()):
        pk = seq(draw, n, 256)
        perm = sorted(range(n), key=lambda i: (pk[i], i))
        out = [(perm[s], perm[t]) for s, t in out]
    return {"n": n, "s": [e[0] for e in out], "t": [e[1] for e in out]}


# ---------------------------------------------------------------- weights
def weights(draw, n, dtypes=ALL_DTYPES, channels=None, kinds=None, levels=None, nonneg=False, special=False,
            layout=True):
    """dict(dtype, v, shape, layout). channels: None -> scalar, or k."""
    dt = choice(draw, dtypes) if not isinstance(dtypes, str) else dtypes
    isf = dt.startswith("float")
    signed = isf or dt.startswith("int")
    tot = n * (channels or 1)
    kind = choice(draw, kinds or ["ties", "small", "wide"])
    lv = levels or {"ties": 3, "small": 12, "wide": 100}[kind]
    if kind == "wide" and isf:
        raw = seq(draw, tot, 4096)
        v = [(x - (0 if nonneg else 1024)) / 16.0 for x in raw]
    else:
        raw = seq(draw, tot, lv)
        off = 0
        if signed and not nonneg and draw(st.integers(0, 3)) == 0:
            off = lv // 2
        if isf and draw(st.booleans()):
            v = [(x - off) * 0.5 for x in raw]
        else:
            v = [x - off for x in raw]
    if special and isf and n and draw(st.integers(0, 7)) == 0:
        k = draw(st.integers(0, tot - 1))
        v[k] = float("inf") if nonneg or draw(st.booleans()) else float("-inf")
    w = {"dtype": dt, "v": v}
    if channels:
        w["c"] = channels
    if layout and draw(st.integers(0, 5)) == 0:
        w["layout"] = draw(st.integers(1, 3))
    return w


def labels(draw, n, k, dtypes=("int64",), offset=0):
    return {"dtype": choice(draw, dtypes), "v": [x + offset for x in seq(draw, n, k)]}


def increasing_altitudes(draw, parents, strict=False, levels=4, zero_leaves=True, dtypes=("float64",), flat=0.3):
    """altitudes non-decreasing from leaves to root (leaves at 0 when zero_leaves)."""
    n = len(parents)
    nl = num_leaves(parents)
    inc = seq(draw, n, levels)
    alt = [0] * n
    for i in range(n):
        if i < nl:
            alt[i] = 0 if zero_leaves else inc[i] - 1
    low = [None] * n
    for i in range(n):
        if i >= nl:
            alt[i] = low[i] + inc[i] + (1 if strict else 0)
        p = parents[i]
        if p != i:
            low[p] = alt[i] if low[p] is None else max(low[p], alt[i])
    dt = choice(draw, dtypes)
    return {"dtype": dt, "v": alt}


def num_leaves(parents):
    n = len(parents)
    if n == 1:
        return 1
    has = set(parents[i] for i in range(n))
    return min(has)
