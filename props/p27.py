"""P27: sorting, heaps, union find, range minimum queries, embeddings, tree iterators and pnm images of the C++ headers."""
import ctypes as C
import functools
import os
import tempfile
import numpy as np
import higra as hg
from vlib.core import Sub, req
from vlib import gen as G
from vlib import build
from vlib.ref import T

I8 = C.c_int64
VP = C.c_void_p


def _lib():
    global LIB
    if LIB is None:
        p = build.NATIVE
        L = C.CDLL(p)
        L.native_error.restype = C.c_char_p
        L.heaps_new.restype = VP
        L.uf_new.restype = VP
        for f, a, r in [("heaps_delete", [VP], None), ("heap_push", [VP, I8, I8], I8), ("heap_top", [VP, I8, C.POINTER(I8)], I8),
                        ("heap_pop", [VP, I8], None), ("heap_size", [VP, I8], I8), ("heap_empty", [VP, I8], I8),
                        ("heap_change", [VP, I8, I8, I8, I8], None), ("heap_value", [VP, I8], I8),
                        ("heap_merge", [VP, I8, I8], None), ("heap_clear", [VP, I8], None),
                        ("heap_move_assign", [VP, I8, I8], None), ("heap_move_construct", [VP, I8, I8], None),
                        ("heap_renew", [VP, I8], None), ("heaps_new", [I8], VP),
                        ("uf_new", [I8], VP), ("uf_delete", [VP], None), ("uf_make_set", [VP], I8), ("uf_find", [VP, I8], I8),
                        ("uf_link", [VP, I8, I8], I8), ("rmq_all", [I8, VP, I8, I8, VP], I8),
                        ("sort_int", [I8, I8, VP, I8, I8, I8, VP], I8), ("sort_double", [I8, I8, VP, I8, I8, I8, VP], I8),
                        ("pnm_save", [C.c_char_p, VP, I8, I8, I8, I8], I8), ("pnm_read", [C.c_char_p, VP, I8, VP], I8),
                        ("embedding", [I8, VP, I8, VP, VP, VP, VP], I8),
                        ("supervertices", [I8, VP, VP, I8, VP, VP, VP, C.POINTER(I8)], I8),
                        ("irange", [I8, I8, I8, VP, I8], I8),
                        ("tree_walk", [I8, VP, I8, I8, I8, I8, VP, I8], I8)]:
            g = getattr(L, f)
            g.argtypes = a
            g.restype = r
        LIB = L
    return LIB


LIB = None


def ptr(a):
    return a.ctypes.data_as(VP)


def seq(draw, n, hi):
    return G.seq(draw, n, hi + 1)


# ------------------------------------------------------------------ heaps

NH = 3


def s_heap(draw):
    n = draw(G.st.sampled_from([6, 15, 40, 90]))
    hi = draw(G.st.sampled_from([2, 8, 60]))
    return {"ops": [[a, b, c, v] for a, b, c, v in zip(seq(draw, n, 31), seq(draw, n, NH - 1), seq(draw, n, 255), seq(draw, n, hi))],
            "n0": draw(G.st.integers(0, 40)), "grow": draw(G.st.booleans())}


# 0-9 push, 10-14 pop, 15-18 decrease, 19-21 increase, 22-24 update, 25-27 erase, 28 merge, 29 move assign,
# 30 move construct / renew, 31 clear
def c_heap(c, ctx):
    L = _lib()
    h = L.heaps_new(NH)
    m = [dict() for _ in range(NH)]     # id -> value
    where = {}
    tv = I8()
    seen = set()
    try:
        def top(k):
            i = L.heap_top(h, k, C.byref(tv))
            req(i in m[k], "top is not an element of the heap", k, i)
            req(m[k][i] == tv.value, "value of the top", tv.value, m[k][i])
            req(tv.value == min(m[k].values()), "top is not the minimum", tv.value, min(m[k].values()))
            return i

        def push(k, v):
            i = L.heap_push(h, k, v)
            m[k][i] = v
            where[i] = k

        for i in range(c["n0"]):
            push(0, (i * 7) % 23)
        for op, k, sel, v in c["ops"]:
            if op < 10:
                push(k, v)
                nm = "push"
            elif op < 15:
                nm = "pop"
                if m[k]:
                    i = top(k)
                    L.heap_pop(h, k)
                    del m[k][i]
                    del where[i]
            elif op < 28:
                if not m[k]:
                    continue
                ids = sorted(m[k])
                i = ids[sel % len(ids)]
                old = m[k][i]
                if op < 19:
                    nm = "decrease"
                    new = old - v
                    L.heap_change(h, k, i, 0, new)
                    m[k][i] = new
                elif op < 22:
                    nm = "increase"
                    new = old + v
                    L.heap_change(h, k, i, 1, new)
                    m[k][i] = new
                elif op < 25:
                    nm = "update"
                    L.heap_change(h, k, i, 2, v)
                    m[k][i] = v
                else:
                    nm = "erase"
                    L.heap_change(h, k, i, 3, 0)
                    del m[k][i]
                    del where[i]
            elif op == 31:
                nm = "clear"
                if sel % 4:
                    continue
                L.heap_clear(h, k)
                for i in m[k]:
                    del where[i]
                m[k] = {}
            else:
                o = (k + 1 + sel % (NH - 1)) % NH
                if op == 28:
                    nm = "merge"
                    L.heap_merge(h, k, o)
                    m[k].update(m[o])
                elif op == 29:
                    nm = "move assign"
                    L.heap_move_assign(h, k, o)
                    for i in m[k]:
                        del where[i]
                    m[k] = m[o]
                elif sel % 2:
                    nm = "move construct"
                    L.heap_move_construct(h, k, o)
                    for i in m[k]:
                        del where[i]
                    m[k] = m[o]
                else:
                    nm = "renew"
                    L.heap_renew(h, k)
                    for i in m[k]:
                        del where[i]
                    m[k] = {}
                    o = None
                if o is not None:
                    m[o] = {}
                    for i in m[k]:
                        where[i] = k
            seen.add(nm)
            for q in range(NH):
                req(L.heap_size(h, q) == len(m[q]), "size after", nm, q, L.heap_size(h, q), len(m[q]))
                req(bool(L.heap_empty(h, q)) == (not m[q]), "empty after", nm, q)
                if m[q]:
                    top(q)
        for q in range(NH):
            for i in m[q]:
                req(L.heap_value(h, i) == m[q][i], "value behind a handle", i)
            while m[q]:
                i = top(q)
                L.heap_pop(h, q)
                del m[q][i]
            req(L.heap_empty(h, q) and L.heap_size(h, q) == 0, "drained heap")
    finally:
        L.heaps_delete(h)
    for s in seen:
        ctx.ev(s)
    return len(seen) >= 5


# ------------------------------------------------------------------ union find

def s_uf(draw):
    n = draw(G.st.integers(1, G.sz(30)))
    k = draw(G.st.sampled_from([4, 20, 60]))
    return {"n": n, "ops": [[a, b, c] for a, b, c in zip(seq(draw, k, 9), seq(draw, k, 255), seq(draw, k, 255))]}


def c_uf(c, ctx):
    L = _lib()
    u = L.uf_new(c["n"])
    try:
        cl = {i: {i} for i in range(c["n"])}   # element -> its set (shared objects)
        links = 0
        for op, a, b in c["ops"]:
            n = len(cl)
            a, b = a % n, b % n
            if op < 2:
                i = L.uf_make_set(u)
                req(i == n, "make_set", i, n)
                cl[n] = {n}
            elif op < 5:
                r = L.uf_find(u, a)
                req(r in cl[a], "canonical element outside of the set", a, r)
                req(L.uf_find(u, r) == r, "find of the canonical element")
                req((L.uf_find(u, b) == r) == (b in cl[a]), "same canonical element", a, b)
            else:
                x, y = L.uf_find(u, a), L.uf_find(u, b)
                req((x == y) == (cl[a] is cl[b]), "same set", a, b)
                r = L.uf_link(u, x, y)
                req(r in (x, y), "link returns one of the canonical elements")
                if cl[a] is not cl[b]:
                    links += 1
                    s = cl[a] | cl[b]
                    for e in s:
                        cl[e] = s
                req(L.uf_find(u, a) == r and L.uf_find(u, b) == r, "canonical element after link", r)
        for a in cl:
            r = L.uf_find(u, a)
            req(all(L.uf_find(u, e) == r for e in cl[a]), "final sets")
        req(len({L.uf_find(u, a) for a in cl}) == len({id(s) for s in cl.values()}), "number of sets")
    finally:
        L.uf_delete(u)
    return links >= 3


# ------------------------------------------------------------------ range minimum

def s_rmq(draw):
    n = draw(G.st.integers(1, G.sz(40)))
    hi = draw(G.st.sampled_from([2, 6, 100]))
    off = draw(G.st.sampled_from([0, 0, -3, -200]))
    return {"v": [x + off for x in seq(draw, n, hi)], "block": draw(G.st.sampled_from([-1, 1, 2, 3, 4, 5, 7, 8, 16, 64])),
            "rest": draw(G.st.integers(0, 2))}


def c_rmq(c, ctx):
    L = _lib()
    n = len(c["v"])
    v = np.array(c["v"], dtype=np.int64)
    out = np.full(n * (n + 1) // 2, -7, dtype=np.int64)
    req(L.rmq_all(n, ptr(v), c["block"], c["rest"], ptr(out)) == 0, "error", L.native_error())
    k = 0
    for l in range(n):
        mn = v[l]
        for r in range(l + 1, n + 1):
            mn = min(mn, v[r - 1])
            i = out[k]
            k += 1
            req(l <= i < r and v[i] == mn, "query", l, r, "position", i, "minimum", mn)
    ctx.ev("blocks" if c["block"] > 0 else "table")
    return n > 4


# ------------------------------------------------------------------ sorting in C++

def keyfun(kind, m, t):
    return [lambda a: a, lambda a: -a, abs, lambda a: int(a) % m][kind]


def s_sortn(draw):
    n = draw(G.st.integers(0, 40))
    d = draw(G.st.sampled_from([-1, -1, 1, 2, 3]))
    fn = draw(G.st.integers(0, 5) if d < 0 else G.st.sampled_from([2, 3]))
    hi = draw(G.st.sampled_from([1, 4, 30]))
    return {"n": n, "d": d, "fn": fn, "v": [x - hi // 2 for x in seq(draw, n * max(d, 1), hi)], "f": draw(G.st.booleans()),
            "kind": draw(G.st.integers(0, 3)), "m": draw(G.st.integers(2, 5))}


def lex(i, j):
    return (i > j) - (i < j)


def c_sortn(c, ctx):
    L = _lib()
    n, d, fn = c["n"], c["d"], c["fn"]
    v = np.array(c["v"], dtype=np.float64 if c["f"] else np.int64)
    if c["f"] and c["kind"] != 3:
        v = v / 4
    a = v.copy() if n else np.zeros(1, v.dtype)
    idx = np.full(max(n, 1), -1, dtype=np.int64)
    r = (L.sort_double if c["f"] else L.sort_int)(n, d, ptr(a), fn, c["kind"], c["m"], ptr(idx))
    req(r == 0, "error", r, L.native_error())
    key = keyfun(c["kind"], c["m"], v.dtype)
    rows = [tuple(key(x) for x in row) for row in v.reshape(n, max(d, 1))] if n else []
    exp = sorted(range(n), key=lambda i: rows[i])
    if fn in (2, 3):
        idx = idx[:n]
        req(sorted(idx.tolist()) == list(range(n)), "arg sort is not a permutation", idx)
        if fn == 3:
            req(idx.tolist() == exp, "stable arg sort", idx, exp)
        req([rows[i] for i in idx] == [rows[i] for i in exp], "arg sort order", idx)
        req(not n or np.array_equal(a, v), "input of arg sort modified")
    else:
        a = a[:n]
        req(sorted(a.tolist()) == sorted(v.tolist()), "sorted values are not those of the input")
        if fn in (1, 5):
            req(a.tolist() == [v[i] for i in exp], "stable sort", a, v)
        req([key(x) for x in a] == [key(v[i]) for i in exp], "sort order", a)
    return n > 3


# ------------------------------------------------------------------ hg.sort / hg.arg_sort

DT = G.ALL_DTYPES + ["bool", "float16", ">i4", ">f8"]


def s_sortp(draw):
    n = draw(G.st.integers(0, 60))
    d = draw(G.st.sampled_from([0, 0, 0, 1, 2, 3]))
    dt = G.choice(draw, DT)
    signed = dt not in ("bool",) and not dt.startswith("uint")
    hi = draw(G.st.sampled_from([1, 5, 120]))
    return {"n": n, "d": d, "dtype": dt, "v": [x - (hi // 2 if signed else 0) for x in seq(draw, n * max(d, 1), hi)],
            "lay": draw(G.st.integers(0, 3)), "stable": draw(G.st.booleans()), "frac": draw(G.st.booleans()),
            "ext": draw(G.st.booleans())}


def c_sortp(c, ctx):
    n, d = c["n"], c["d"]
    v = np.array(c["v"], dtype=np.int64 if c["dtype"] != "bool" else bool).astype(c["dtype"])
    k = v.dtype.kind
    if k == "f" and c["frac"]:
        v = (v / 8).astype(v.dtype)
    if k == "f" and c["ext"] and v.size > 3:
        v[0], v[1], v[2] = np.inf, -np.inf, -0.0
    if k in "iu" and c["ext"] and v.size > 2:
        ii = np.iinfo(v.dtype)
        v[0], v[1] = ii.max, ii.min
    if d:
        v = v.reshape(n, d)
    a = v.copy()
    if c["lay"] == 1:
        a = np.repeat(v, 2, axis=0)[::2]
    elif c["lay"] == 2:
        a = v[::-1].copy()[::-1]
    elif c["lay"] == 3 and d:
        a = np.asfortranarray(v)
    rows = [tuple(r) for r in v.reshape(n, max(d, 1)).tolist()] if n else []
    exp = sorted(range(n), key=lambda i: rows[i])
    i1 = np.asarray(hg.arg_sort(a, stable=c["stable"]))
    req(np.array_equal(a, v), "arg_sort modifies its argument")
    req(i1.shape == (n,) and sorted(i1.tolist()) == list(range(n)), "permutation", i1)
    if c["stable"]:
        req(i1.tolist() == exp, "stable arg_sort", i1, exp)
    req([rows[i] for i in i1] == [rows[i] for i in exp], "arg_sort", i1, rows)
    r = hg.sort(a, stable=c["stable"])
    req(r is None, "sort returns nothing")
    got = [tuple(x) for x in a.reshape(n, max(d, 1)).tolist()] if n else []
    req(a.dtype == v.dtype and a.shape == v.shape, "type or shape changed")
    req(got == [rows[i] for i in exp], "sort", a, v)
    ctx.ev(k)
    return n > 3 and len(set(rows)) > 2


# ------------------------------------------------------------------ pnm

def s_pnm(draw):
    h, w = draw(G.st.integers(1, G.sz(5, 2))), draw(G.st.integers(1, G.sz(6, 2)))
    ch = draw(G.st.sampled_from([0, 0, 3]))
    n = h * w * max(ch, 1)
    v = [draw(G.st.sampled_from([35, 10, 13, 32, 0, 255, 26, 48])) if x % 4 == 0 else x for x in seq(draw, n, 255)]
    return {"h": h, "w": w, "c": ch, "v": v, "lay": draw(G.st.integers(0, 3)), "over": draw(G.st.booleans()),
            "cut": draw(G.st.integers(0, 3)), "cutpos": draw(G.st.integers(0, 200))}


def c_pnm(c, ctx):
    L = _lib()
    v = np.array(c["v"], dtype=np.uint8)
    h, w, ch = c["h"], c["w"], c["c"]
    d = tempfile.mkdtemp(prefix="p27")
    path = os.path.join(d, "x.pnm")
    out = np.zeros(4096, dtype=np.uint8)
    shape = np.zeros(4, dtype=np.int64)
    try:
        bp = path.encode()
        req(L.pnm_read(bp, ptr(out), 4096, ptr(shape)) == -1000, "missing file accepted")
        if c["over"]:
            with open(path, "wb") as f:
                f.write(b"previous content" * 40)
        req(L.pnm_save(bp, ptr(v), h, w, ch, c["lay"]) == 0, "save", L.native_error())
        with open(path, "rb") as f:
            data = f.read()
        # the file is a P5/P6 image for an independent reader
        parts = data.split(None, 4)
        hd = (b"P6" if ch else b"P5")
        req(data.startswith(hd), "magic", data[:10])
        req(parts[1:3] == [str(w).encode(), str(h).encode()], "size in the header", parts[:4])
        req(data[-v.size:] == v.tobytes(), "raster")
        r = L.pnm_read(bp, ptr(out), 4096, ptr(shape))
        req(r == (3 if ch else 2), "read", r, L.native_error())
        req(list(shape[:r]) == ([h, w, 3] if ch else [h, w]), "shape", shape)
        req(np.array_equal(out[:v.size], v), "pixels", out[:v.size], v)
        req(L.pnm_save((d + "/no/x.pnm").encode(), ptr(v), h, w, ch, 0) == -1000, "unwritable file not reported")
        if c["cut"] == 0:
            with open(path, "wb") as f:
                f.write(data[:c["cutpos"] % len(data)])
            req(L.pnm_read(bp, ptr(out), 4096, ptr(shape)) == -1000, "truncated file accepted", c["cutpos"] % len(data), len(data))
            ctx.ev("truncated")
        elif c["cut"] == 1:
            # ascii formats with comments
            bw = not ch and (v <= 1).all()
            lines = ["# c1", "P2" if not ch else "P3", "# c2", "%d %d" % (w, h), "255", "#c3"]
            if not ch and c["cutpos"] % 2:
                v = (v & 1).astype(np.uint8)
                lines = ["P1", "# c2", "%d" % w, "%d" % h]
            vals = v.tolist()
            k = 1 + c["cutpos"] % 7
            while vals:
                lines.append(" ".join(map(str, vals[:k])))
                if len(vals) % 3 == 0:
                    lines.append("# comment 12 13")
                vals = vals[k:]
            txt = "\n".join(lines) + ("\n" if c["lay"] else "")
            with open(path, "w") as f:
                f.write(txt)
            r = L.pnm_read(bp, ptr(out), 4096, ptr(shape))
            req(r == (3 if ch else 2), "read ascii", r, L.native_error())
            req(list(shape[:r]) == ([h, w, 3] if ch else [h, w]), "shape", shape)
            req(np.array_equal(out[:v.size], v), "ascii pixels", out[:v.size], v)
            ctx.ev("ascii")
        elif c["cut"] == 2:
            # raw formats with comments in the header
            txt = b"P6\n" if ch else b"P5\n"
            txt += b"# c1\n%d\n# c 4 5\n%d %d\n" % (w, h, 255) + (b"# last\n" if c["lay"] else b"") + v.tobytes()
            with open(path, "wb") as f:
                f.write(txt)
            r = L.pnm_read(bp, ptr(out), 4096, ptr(shape))
            req(r == (3 if ch else 2), "read raw", r, L.native_error())
            req(np.array_equal(out[:v.size], v), "raw pixels", out[:v.size], v)
            ctx.ev("raw with comments")
    finally:
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        os.rmdir(d)
    return h * w > 1


# ------------------------------------------------------------------ embeddings

def s_emb(draw):
    dim = draw(G.st.integers(1, 4))
    shape = [draw(G.st.integers(1, G.sz(5, dim))) for _ in range(dim)]
    return {"shape": shape, "q": [x - 1 for x in seq(draw, 3 * dim, 7)]}


def c_emb(c, ctx):
    L = _lib()
    s = np.array(c["shape"], dtype=np.int64)
    dim = len(s)
    pts = [list(p) for p in np.ndindex(*c["shape"])] + [c["q"][i * dim:(i + 1) * dim] for i in range(3)]
    pa = np.array(pts, dtype=np.int64)
    n = len(pts)
    lin, ins, grid = np.full(n, -9, np.int64), np.full(n, -9, np.int64), np.full((n, dim), -9, np.int64)
    r = L.embedding(dim, ptr(s), n, ptr(pa), ptr(lin), ptr(ins), ptr(grid))
    size = int(np.prod(s))
    req(r == size, "size", r, size, L.native_error() if r < 0 else "")
    for i, p in enumerate(pts):
        inside = all(0 <= x < y for x, y in zip(p, c["shape"]))
        req(ins[i] == inside, "contains", p)
        if inside:
            req(lin[i] == np.ravel_multi_index(p, c["shape"]), "grid2lin", p, lin[i])
            req(grid[i].tolist() == p, "lin2grid", p, grid[i])
    # the python class
    e = {1: "EmbeddingGrid1d", 2: "EmbeddingGrid2d", 3: "EmbeddingGrid3d", 4: "EmbeddingGrid4d"}[dim]
    if hasattr(hg, e):
        g = getattr(hg, e)(c["shape"])
        req(g.size() == size and g.dimension() == dim and list(g.shape()) == c["shape"], "python embedding")
        P = pa[:size]
        req(np.array_equal(g.grid2lin(P), np.arange(size)), "python grid2lin")
        req(np.array_equal(g.lin2grid(np.arange(size)), P), "python lin2grid")
        cts = np.asarray(g.contains(pa)).astype(bool)
        req(np.array_equal(cts, ins.astype(bool)), "python contains", cts)
        ctx.ev("python")
    return size > 2


# ------------------------------------------------------------------ tree iterators

def s_walk(draw):
    return {"p": G.tree(draw, 8, 7, big=30, single=True), "node": draw(G.st.integers(0, 255)),
            "r": [draw(G.st.integers(-9, 9)), draw(G.st.integers(-9, 9)), draw(G.st.integers(1, 4)) * draw(G.st.sampled_from([1, -1]))]}


def walk(p, what, leaves=1, root=1, node=0):
    L = _lib()
    a = np.array(p, dtype=np.int64)
    out = np.zeros(4 * len(p) + 16, dtype=np.int64)
    r = L.tree_walk(len(p), ptr(a), what, leaves, root, node, ptr(out), len(out))
    req(r >= 0, "error", L.native_error())
    return out[:r].tolist()


def c_walk(c, ctx):
    r = T(c["p"])
    n, nl, root = r.n, r.nl, r.root
    v = c["node"] % n
    for lv in (0, 1):
        for rt in (0, 1):
            exp = [i for i in range(n) if (lv or i >= nl) and (rt or i != root)]
            if n == 1 and lv != rt:
                continue     # the single node is both a leaf and the root
            req(walk(c["p"], 0, lv, rt) == exp, "leaves to root", lv, rt, walk(c["p"], 0, lv, rt), exp)
            req(walk(c["p"], 1, lv, rt) == exp[::-1], "root to leaves", lv, rt, walk(c["p"], 1, lv, rt))
    req(walk(c["p"], 2) == list(range(nl)), "leaves")
    req(walk(c["p"], 3, node=v) == r.anc(v), "ancestors", walk(c["p"], 3, node=v))
    req(walk(c["p"], 9, node=v) == r.anc(v), "ancestors iterator", walk(c["p"], 9, node=v))
    req(walk(c["p"], 4, node=v) == r.ch[v], "children")
    req(walk(c["p"], 5) == list(range(n)), "vertices")
    req(walk(c["p"], 6) == [x for i in range(n - 1) for x in (i, c["p"][i])], "edges")
    nb = sorted(r.ch[v] + ([c["p"][v]] if v != root else []))
    req(sorted(walk(c["p"], 7, node=v)) == nb, "adjacent vertices")
    e = walk(c["p"], 8, node=v)
    req(sorted(b if a == v else a for a, b in zip(e[::2], e[1::2])) == nb and all(v in x for x in zip(e[::2], e[1::2])), "out edges", e)
    out = np.zeros(32, dtype=np.int64)
    k = _lib().irange(*c["r"], ptr(out), 32)
    req(k >= 0 and out[:k].tolist() == list(range(*c["r"])), "range", c["r"], out[:max(k, 0)], _lib().native_error())
    return n > 3


SUBTESTS = [
    Sub("heap", s_heap, c_heap, 1500, rule="at least five different operations were applied"),
    Sub("union_find", s_uf, c_uf, 600, rule="at least three effective links"),
    Sub("range_minimum", s_rmq, c_rmq, 700, rule="more than four values"),
    Sub("sort_native", s_sortn, c_sortn, 700, rule="more than three elements"),
    Sub("sort", s_sortp, c_sortp, 900, rule="more than three elements with three distinct ones"),
    Sub("pnm", s_pnm, c_pnm, 600, rule="more than one pixel"),
    Sub("embedding", s_emb, c_emb, 300, rule="more than two cells"),
    Sub("tree_iterators", s_walk, c_walk, 500, rule="more than three nodes"),
]
