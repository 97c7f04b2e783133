"""P05: tree accumulators / propagators against their recursive definitions."""
import numpy as np
import higra as hg
from vlib.core import Sub, req, Skip
from vlib import gen as G
from vlib.ref import T, arr
from vlib.hgc import mk_tree

ACC = ["min", "max", "mean", "counter", "sum", "prod", "first", "last", "argmin", "argmax"]
SHAPE_ACC = ["min", "max", "mean", "sum", "prod", "first", "last"]
NODT = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64"]


def low(dt):
    return -np.inf if np.issubdtype(dt, np.floating) else np.iinfo(dt).min


def high(dt):
    return np.inf if np.issubdtype(dt, np.floating) else np.iinfo(dt).max


class Undef:
    """value the property says nothing about (first/last of an empty list, ...)"""


def combine(acc, vals, dt, shape):
    """accumulation of a list of arrays (all of type dt and shape `shape`), None when unspecified"""
    dt = np.dtype(dt)
    with np.errstate(all="ignore"):
        if acc == "counter":
            return np.array(len(vals)).astype(dt)
        if acc in ("argmin", "argmax"):
            if shape != ():
                # vectors: a vector whose components are all extreme, its index in every component of the result
                if not vals:
                    return np.full(shape, -1).astype(dt)
                if any(v is None for v in vals):
                    return None
                best = (np.min if acc == "argmin" else np.max)(np.array(vals), axis=0)
                cand = [i for i, v in enumerate(vals) if np.array_equal(v, best)]
                return np.full(shape, cand[0]).astype(dt) if len(cand) == 1 else None
            if not vals:
                return np.array(-1).astype(dt)
            b = 0
            for i, v in enumerate(vals):
                if (v < vals[b]) if acc == "argmin" else (v > vals[b]):
                    b = i
            return np.array(b).astype(dt)
        if acc in ("first", "last"):
            return None if not vals else vals[0 if acc == "first" else -1]
        if not vals:
            e = {"min": high(dt), "max": low(dt), "mean": 0, "sum": 0, "prod": 1}[acc]
            return np.full(shape, e, dtype=dt)
        r = vals[0].copy()
        for v in vals[1:]:
            if acc == "min":
                r = np.minimum(r, v)
            elif acc == "max":
                r = np.maximum(r, v)
            elif acc == "prod":
                r = (r * v).astype(dt)
            else:
                r = (r + v).astype(dt)
        if acc == "mean":
            n = len(vals)
            if np.issubdtype(dt, np.floating):
                r = (r / dt.type(n)).astype(dt)
            else:  # integer data: truncated division of the sum
                s = [sum(x) for x in zip(*[[int(y) for y in v.ravel()] for v in vals])]
                if any(not -2 ** 63 <= x < (2 ** 63 if dt.kind == "i" else 2 ** 64) for x in s):
                    raise Skip()  # the sum does not fit in 64 bits
                r = np.array([abs(x) // n * (1 if x >= 0 else -1) for x in s], dtype=dt).reshape(shape)
        return r


def eq(a, b, dt):
    if np.issubdtype(dt, np.floating):
        tol = 1e-4 if dt == np.float32 else 1e-9
        return bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))
    return bool(np.array_equal(a, b))


def compare(got, exp, dt, what, c):
    """exp: list of arrays, None where unspecified"""
    got = np.asarray(got)
    req(got.shape[0] == len(exp), what, "size", got.shape, len(exp))
    for i, e in enumerate(exp):
        if e is None:
            continue
        req(got[i].shape == e.shape, what, "shape at node", i, got[i].shape, e.shape)
        req(eq(got[i], e, dt), what, "node", i, "got", got[i].tolist(), "expected", e.tolist())


def wdata(draw, n, acc=None, dt=None):
    ch = G.choice(draw, [None, None, None, None, None, 1, 1, 2, 2, 2, 3, 3, "2x2", "2x2", 0])
    k = {None: 1, "2x2": 4}.get(ch, ch)
    dt = dt or G.choice(draw, NODT)
    kind = G.choice(draw, ["ties", "small", "wide", "extreme"])
    tot = n * k
    if kind == "extreme":
        d = np.dtype(dt)
        if dt.startswith("float"):
            pal = [0.0, 1.0, -1.0, 0.5, float("inf"), float(np.finfo(d).max), -2.5, float("-inf")]
            if acc in ("sum", "prod", "mean"):
                pal = [0.0, 1.0, -1.0, 0.5, 1000.0, -3.25]
        else:
            i = np.iinfo(d)
            pal = [0, 1, 2, int(i.max), int(i.min), int(i.max) - 1]
            if acc == "mean" and d.itemsize == 8:
                pal = [0, 1, 2, 3, 7]
        v = [pal[x % len(pal)] for x in G.seq(draw, tot, len(pal))]
    else:
        lv = {"ties": 3, "small": 10, "wide": 100}[kind]
        raw = G.seq(draw, tot, lv)
        signed = dt.startswith("float") or dt.startswith("int")
        off = lv // 2 if signed and draw(G.st.booleans()) else 0
        v = [(x - off) * (0.5 if dt.startswith("float") else 1) for x in raw]
    return {"dtype": dt, "v": v, "ch": ch, "n": n}


def mkarr(w):
    a = np.array(w["v"], dtype=w["dtype"])
    if w["ch"] is None:
        return a
    if w["ch"] == "2x2":
        return a.reshape(-1, 2, 2)
    if w["ch"] == 0:
        return a.reshape(w["n"], 0)
    return a.reshape(-1, w["ch"])


def s_tree(draw):
    return G.tree(draw, 9, 9, big=60)


def common(draw):
    p = s_tree(draw)
    return {"p": p, "mode": draw(G.st.integers(0, 2))}


# ------------------------------------------------------------------ accumulate_parallel
def s_par(draw):
    c = common(draw)
    c["acc"] = G.choice(draw, ACC)
    c["w"] = wdata(draw, len(c["p"]), c["acc"])
    return c


def c_par(c, ctx):
    r = T(c["p"])
    w = mkarr(c["w"])
    w0 = w.copy()
    acc = c["acc"]
    exp = [combine(acc, [w[x] for x in r.ch[i]], w.dtype, w.shape[1:]) for i in range(r.n)]
    res = []
    for mode in ((0, 1, 2) if r.n < 30 else (c["mode"],)):
        t = mk_tree(c["p"], mode)
        g = hg.accumulate_parallel(t, w, getattr(hg.Accumulators, acc))
        compare(g, exp, w.dtype, "accumulate_parallel %s children mode %d" % (acc, mode), c)
    req(np.array_equal(w, w0), "input modified")
    ctx.ev(acc)
    return r.n > r.nl + 1


# ------------------------------------------------------------------ accumulate_sequential
def s_seq(draw):
    c = common(draw)
    c["acc"] = G.choice(draw, ACC)
    c["w"] = wdata(draw, G.num_leaves(c["p"]), c["acc"])
    c["via"] = draw(G.st.integers(0, 2))
    return c


def bounded(exp):
    """float results that got huge make rounding-order comparisons meaningless"""
    return all(e is None or not np.issubdtype(e.dtype, np.floating) or np.all(~np.isfinite(e) | (np.abs(e) < 1e30)) for e in exp)


def c_seq(c, ctx):
    r = T(c["p"])
    w = mkarr(c["w"])
    acc = c["acc"]
    sh = w.shape[1:]
    if sh != () and acc == "counter":
        raise Skip()
    exp = [None] * r.n
    for i in range(r.n):
        exp[i] = w[i] if i < r.nl else combine(acc, [exp[x] for x in r.ch[i]], w.dtype, sh)
    if not bounded(exp):
        raise Skip()
    for mode in ((0, 1, 2) if r.n < 30 else (c["mode"],)):
        t = mk_tree(c["p"], mode)
        if c["via"] == 0:
            g = hg.accumulate_sequential(t, w, getattr(hg.Accumulators, acc))
        else:
            lg = hg.UndirectedGraph(r.nl)
            a = w
            if c["via"] == 2 and r.nl % 2 == 0:
                hg.CptGridGraph.link(lg, (2, r.nl // 2))
                a = w.reshape((2, r.nl // 2) + sh)
            g = hg.accumulate_sequential(t, a, getattr(hg.Accumulators, acc), lg)
        compare(g, exp, w.dtype, "accumulate_sequential %s mode %d" % (acc, mode), c)
    ctx.ev(acc)
    return r.n > r.nl + 1


# ------------------------------------------------------------------ accumulate_and_*
def s_and(draw):
    c = common(draw)
    c["op"] = G.choice(draw, ["add", "multiply", "min", "max"])
    c["acc"] = G.choice(draw, SHAPE_ACC + ["counter", "argmin", "argmax"])
    n = len(c["p"])
    w = wdata(draw, n + G.num_leaves(c["p"]), "sum")
    k = {None: 1, "2x2": 4}.get(w["ch"], w["ch"])
    c["w"] = {"dtype": w["dtype"], "v": w["v"][:n * k], "ch": w["ch"], "n": n}
    c["l"] = {"dtype": w["dtype"], "v": w["v"][n * k:], "ch": w["ch"], "n": G.num_leaves(c["p"])}
    c["via"] = draw(G.st.integers(0, 2))
    return c


def c_and(c, ctx):
    r = T(c["p"])
    w, l = mkarr(c["w"]), mkarr(c["l"])
    sh = w.shape[1:]
    acc, op = c["acc"], c["op"]
    if sh != () and acc in ("counter", "argmin", "argmax"):
        raise Skip()
    dt = w.dtype
    exp = [None] * r.n
    with np.errstate(all="ignore"):
        for i in range(r.n):
            if i < r.nl:
                exp[i] = l[i]
                continue
            a = combine(acc, [exp[x] for x in r.ch[i]], dt, sh)
            if op == "add":
                exp[i] = np.asarray(w[i] + a).astype(dt)
            elif op == "multiply":
                exp[i] = np.asarray(w[i] * a).astype(dt)
            elif op == "min":
                exp[i] = np.minimum(w[i], a)
            else:
                exp[i] = np.maximum(w[i], a)
    if not bounded(exp):
        raise Skip()
    f = getattr(hg, "accumulate_and_%s_sequential" % op)
    for mode in ((0, 1, 2) if r.n < 30 else (c["mode"],)):
        t = mk_tree(c["p"], mode)
        if c.get("via", 0) == 0:
            g = f(t, w, l, getattr(hg.Accumulators, acc))
        else:   # leaf data in the shape of the leaf graph
            lg = hg.UndirectedGraph(r.nl)
            a = l
            if c["via"] == 2 and r.nl % 2 == 0:
                hg.CptGridGraph.link(lg, (2, r.nl // 2))
                a = l.reshape((2, r.nl // 2) + sh)
            g = f(t, w, a, getattr(hg.Accumulators, acc), lg)
        compare(g, exp, dt, "accumulate_and_%s_sequential %s mode %d" % (op, acc, mode), c)
    ctx.ev(op + "/" + acc)
    return r.n > r.nl + 1


# ------------------------------------------------------------------ propagations
def s_prop(draw):
    c = common(draw)
    n = len(c["p"])
    c["kind"] = G.choice(draw, ["par", "par_cond", "seq", "seq_acc", "seq_acc_cond"])
    c["acc"] = G.choice(draw, SHAPE_ACC)
    c["w"] = wdata(draw, n, c["acc"])
    c["cond"] = [x & 1 for x in G.seq(draw, n, 256)]
    c["cdt"] = G.choice(draw, ["bool", "bool", "uint8", "int64", "float64", "list"])
    return c


def ordered(r, w, cond, acc, par_first):
    """first/last with a fixed order of the two operands (the documentation does not agree with itself on it)"""
    exp = [None] * r.n
    for i in range(r.n - 1, -1, -1):
        if i == r.root or not cond[i]:
            exp[i] = w[i]
        else:
            exp[i] = exp[r.p[i]] if (acc == "first") == par_first else w[i]
    return exp


def c_prop(c, ctx):
    r = T(c["p"])
    w = mkarr(c["w"])
    dt = w.dtype
    sh = w.shape[1:]
    cond = [bool(x) for x in c["cond"]] if c["cdt"] == "list" else np.array(c["cond"]).astype(c["cdt"])
    cond0 = np.array(cond)
    w0 = w.copy()
    t = mk_tree(c["p"], c["mode"])
    k = c["kind"]
    acc = getattr(hg.Accumulators, c["acc"])
    exp = [None] * r.n
    if k == "par":
        exp = [w[r.p[i]] for i in range(r.n)]
        g = hg.propagate_parallel(t, w)
    elif k == "par_cond":
        exp = [w[r.p[i]] if cond[i] else w[i] for i in range(r.n)]
        g = hg.propagate_parallel(t, w, cond)
    elif k == "seq":
        for i in range(r.n - 1, -1, -1):
            exp[i] = exp[r.p[i]] if i != r.root and cond[i] else w[i]
        g = hg.propagate_sequential(t, w, cond)
    else:
        for i in range(r.n - 1, -1, -1):
            if k == "seq_acc" or cond[i]:
                vals = [w[i]] if i == r.root else [exp[r.p[i]], w[i]]
                exp[i] = combine(c["acc"], vals, dt, sh)
            else:
                exp[i] = w[i]
        if not bounded(exp):
            raise Skip()
        if k == "seq_acc":
            g = hg.propagate_sequential_and_accumulate(t, w, acc)
            g2 = hg.propagate_sequential_and_accumulate(t, w, acc, np.ones(r.n, dtype=np.bool_))
            req(np.array_equal(g, g2, equal_nan=not np.issubdtype(dt, np.integer)), "propagate_sequential_and_accumulate: a condition that is true everywhere changes the result")
        else:
            g = hg.propagate_sequential_and_accumulate(t, w, acc, cond)
        if c["acc"] in ("first", "last"):
            cc = [True] * r.n if k == "seq_acc" else cond
            both = [np.array(ordered(r, w, cc, c["acc"], o)) for o in (True, False)]
            g = np.asarray(g)
            req(g.dtype == dt, "type of the result", g.dtype, dt)
            req(any(np.array_equal(g, b) for b in both), "propagate", k, c["acc"], "got", g.tolist(), "none of", [b.tolist() for b in both])
            exp = [None] * r.n
    req(np.asarray(g).dtype == dt, "propagate " + k, "type of the result", np.asarray(g).dtype, dt)
    compare(g, exp, dt, "propagate " + k + " " + c["acc"], c)
    req(np.array_equal(w, w0) and np.array_equal(np.array(cond), cond0), "input modified")
    ctx.ev(k)
    return r.n > r.nl + 1


SUBTESTS = [
    Sub("accumulate_parallel", s_par, c_par, 1500, rule="tree with at least 2 inner nodes", shard=200),
    Sub("accumulate_sequential", s_seq, c_seq, 1500, rule="tree with at least 2 inner nodes", shard=200),
    Sub("accumulate_and", s_and, c_and, 1500, rule="tree with at least 2 inner nodes", shard=200),
    Sub("propagate", s_prop, c_prop, 2500, rule="tree with at least 2 inner nodes", shard=200),
]
