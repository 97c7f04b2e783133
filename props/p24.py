"""P24: files, pickles, copies and exports come back equal."""
import copy
import os
import pickle
import shutil
import struct
import tempfile
import re
import numpy as np
import higra as hg
from vlib.core import Sub, req, Skip
from vlib import gen as G
from vlib.ref import T
from vlib.hgc import mk_tree, mk_graph


def seq(draw, n, hi):
    return G.seq(draw, n, hi + 1)


class Dir:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="p24")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


SPECIAL = [0.0, -0.0, 1.5, -2.25, 1e-310, 5e-324, 1.7976931348623157e308, float("inf"), float("-inf"), float("nan"),
           0.1, 1 / 3, 123456789.123456789, 16777217.0, 9007199254740993.0, 1e22, -1e-7, 100000.5, 3.0000000000000004, 1234567.0]
FINITE = [x for x in SPECIAL if x - x == 0]


def values(draw, n, special):
    k = G.choice(draw, ["small", "mix", "special"])
    if k == "small":
        return [x - 5 for x in seq(draw, n, 20)]
    s = SPECIAL if special else FINITE
    if k == "mix":
        return [s[x] if x < len(s) else (x - 30) / 7 for x in seq(draw, n, 255)]
    return [s[x % len(s)] for x in seq(draw, n, 255)]


def same(a, b):
    """same values bit for bit, except for the payload of nan"""
    a, b = np.asarray(a, dtype=np.float64).ravel(), np.asarray(b, dtype=np.float64).ravel()
    if a.shape != b.shape:
        return False
    na, nb = np.isnan(a), np.isnan(b)
    return bool(np.array_equal(na, nb) and np.array_equal(a[~na], b[~nb]) and np.array_equal(np.signbit(a[~na]), np.signbit(b[~nb])))


def array_of(v, dt):
    """values clipped to what the type holds"""
    dt = np.dtype(dt)
    if dt.kind == "f":
        with np.errstate(all="ignore"):
            return np.asarray(v, dtype=np.float64).astype(dt)
    info = np.iinfo(dt)
    lo, hi = max(info.min, -2 ** 53), min(info.max, 2 ** 53)
    return np.array([int(min(hi, max(lo, x))) if x == x else 0 for x in v], dtype=dt)


# ------------------------------------------------------------------ trees in files
NAMES = ["a", "area", "altitudes", "END", "NAME", "NBNODES", "x=y", "=", "my attribute", "  spaces  ", "é", "tab\there", "0", "shape", "VERSION=3", "a b c", "long" * 40]


def s_treefile(draw):
    p = G.tree(draw, max_leaves=12, max_inner=10, unary=True, big=40)
    k = G.integer(draw, 0, 4)
    idx = []
    for i in seq(draw, k, len(NAMES) - 1):
        if i not in idx:
            idx.append(i)
    return {"p": p, "names": idx, "v": [values(draw, len(p), True) for _ in idx],
            "dt": [G.choice(draw, G.ALL_DTYPES) for _ in idx], "none": draw(G.st.booleans()), "cat": G.integer(draw, 0, 1),
            "lay": G.integer(draw, 0, 1)}


def write_tree(c, f):
    t = mk_tree(c["p"], category=(hg.TreeCategory.ComponentTree if c["cat"] else hg.TreeCategory.PartitionTree))
    at = {}
    for i, v, dt in zip(c["names"], c["v"], c["dt"]):
        a = array_of(v, dt)
        if c["lay"]:
            b = np.zeros((len(a), 3), dtype=a.dtype)
            b[:, 1] = a
            a = b[:, 1]
        at[NAMES[i]] = a
    if not at and c["none"]:
        hg.save_tree(f, t)
    else:
        hg.save_tree(f, t, at)
    return t, at


def c_treefile(c, ctx):
    with Dir() as d:
        f = os.path.join(d, "t")
        t, at = write_tree(c, f)
        t2, at2 = hg.read_tree(f)
        if at:
            # a second file over the first one
            hg.save_tree(f, t)
            t3, at3 = hg.read_tree(f)
            req(at3 == {} and np.array_equal(t3.parents(), t2.parents()), "the file was not overwritten", list(at3))
    req(np.array_equal(t2.parents(), c["p"]), "parents", t2.parents().tolist(), "expected", c["p"])
    req(t2.num_leaves() == t.num_leaves() and t2.num_vertices() == t.num_vertices() and t2.root() == t.root(), "tree read back differs")
    req(sorted(at2) == sorted(at), "attributes", sorted(at2), "expected", sorted(at))
    for k in at:
        req(same(at2[k], at[k].astype(np.float64)), "attribute", k, "is", np.asarray(at2[k]).tolist(), "expected", at[k].tolist())
        req(same(hg.get_attribute(t2, k), at2[k]), "attribute", k, "is not attached to the tree")
        if any(x.isspace() for x in k):
            ctx.ev("name with a space")
    ctx.ev("%d attributes" % len(at))
    return len(c["p"]) >= 4 and len(at) >= 1


def s_treebad(draw):
    c = s_treefile(draw)
    c["cut"] = G.integer(draw, 0, 10 ** 6)
    c["how"] = G.choice(draw, ["truncate", "truncate", "truncate", "parent", "header", "line", "nofile", "value"])
    c["k"] = G.integer(draw, 0, 50)
    return c


def rejected(fun, what, ctx):
    try:
        fun()
    except Exception as e:
        req(not isinstance(e, (SystemError, RecursionError)), what, "raised", repr(e))
        ctx.ev("rejected")
        return
    req(False, what, "was accepted")


def c_treebad(c, ctx):
    with Dir() as d:
        f = os.path.join(d, "t")
        write_tree(c, f)
        b = open(f, "rb").read()
        n = len(c["p"])
        how = c["how"]
        start = b.index(b"END\n") + 4
        if how == "truncate":
            b2 = b[:c["cut"] % len(b)]
        elif how == "parent":
            # a parent which is not a later node, or does not exist
            bad = [-1, -5, n, n + 100, 2 ** 31 - 1, -2 ** 31][c["k"] % 6]
            i = c["cut"] % n
            b2 = b[:start + 4 * i] + struct.pack("i", bad) + b[start + 4 * i + 4:]
        elif how == "header":
            b2 = b.replace(b"NBNODES=%d\n" % n, [b"", b"NBNODES=0\n", b"NBNODES=-3\n", b"NBNODES=x\n", b"NBNODES=%d\n" % (n + 1000)][c["k"] % 5], 1)
        elif how == "line":
            b2 = b.replace(b"END\n", b"EN\n")
        elif how == "value":
            # more attributes than what the file holds
            i = b.index(b"NBATTR=") + 7
            m = str(len(c["names"]) + 1 + c["k"] % 3).encode()
            b2 = b[:i] + m + b[i + len(m):]
        else:
            rejected(lambda: hg.read_tree(os.path.join(d, "missing")), "a missing file", ctx)
            rejected(lambda: hg.save_tree(os.path.join(d, "no", "dir"), hg.Tree((2, 2, 2))), "a file that cannot be opened for writing", ctx)
            return True
        open(f, "wb").write(b2)
        rejected(lambda: hg.read_tree(f), "the file damaged by '%s'" % how, ctx)
    ctx.ev(how)
    return True


# ------------------------------------------------------------------ pink graphs
def s_pink(draw):
    g = G.graph(draw, max_v=12, min_v=1, extra=8, connected=None, multi=True, loops=True)
    n, m = g["n"], len(g["s"])
    fac = [k for k in range(1, n + 1) if n % k == 0]
    return {"g": g, "vw": values(draw, n, True) if draw(G.st.integers(0, 4)) else None, "ew": values(draw, m, True) if draw(G.st.integers(0, 4)) else None,
            "vdt": G.choice(draw, ["float64", "float64", "float32", "int32", "uint8", "int64"]), "edt": G.choice(draw, ["float64", "float64", "float32", "int32", "uint8", "int64"]),
            "rows": G.choice(draw, fac), "shape": G.choice(draw, ["none", "arg", "link", "arg2d", "link2d"]), "again": draw(G.st.booleans())}


def write_pink(c, f):
    g = mk_graph(c["g"])
    n = c["g"]["n"]
    sh = (c["rows"], n // c["rows"])
    vw = None if c["vw"] is None else array_of(c["vw"], c["vdt"])
    ew = None if c["ew"] is None else array_of(c["ew"], c["edt"])
    kw = {}
    if c["shape"].startswith("arg"):
        kw["shape"] = sh
    elif c["shape"].startswith("link"):
        hg.CptGridGraph.link(g, sh)
    v = vw.reshape(sh) if vw is not None and c["shape"].endswith("2d") else vw
    hg.save_graph_pink(f, g, vertex_weights=v, edge_weights=ew, **kw)
    return g, sh, vw, ew


def c_pink(c, ctx):
    with Dir() as d:
        f = os.path.join(d, "g")
        g, sh, vw, ew = write_pink(c, f)
        g2, v2, e2 = hg.read_graph_pink(f)
        if c["again"]:
            text = open(f).read()
            hg.save_graph_pink(f + "2", g2, v2, e2)
            req(open(f + "2").read() == text, "saving what was read writes another file")
    n, m = c["g"]["n"], len(c["g"]["s"])
    req(g2.num_vertices() == n and g2.num_edges() == m, "graph of size", (g2.num_vertices(), g2.num_edges()), "expected", (n, m))
    for a, b in zip(g.edge_list(), g2.edge_list()):
        req(np.array_equal(a, b), "edges", b.tolist(), "expected", a.tolist())
    req(same(e2, np.ones(m) if ew is None else ew), "edge weights", np.asarray(e2).tolist(), "expected", None if ew is None else ew.tolist())
    req(same(v2, np.ones(n) if vw is None else vw), "vertex weights", np.asarray(v2).tolist(), "expected", None if vw is None else vw.tolist())
    if c["shape"] != "none":
        req(tuple(hg.CptGridGraph.get_shape(g2)) == sh, "shape", hg.CptGridGraph.get_shape(g2), "expected", sh)
        # one row or column: linear weights are ambiguous with the shape
        req(np.asarray(v2).shape == sh or np.asarray(v2).size == n and 1 in sh, "shape of the vertex weights", np.asarray(v2).shape)
    if m == 0:
        ctx.ev("no edge")
    ctx.ev("shape " + c["shape"])
    return n >= 4 and m >= 2


def s_pinkbad(draw):
    c = s_pink(draw)
    c["how"] = G.choice(draw, ["lines", "lines", "vertex", "edge", "count", "text", "nofile", "header"])
    c["k"] = G.integer(draw, 0, 1000)
    c["vw"] = c["vw"] and [x - x and 1.0 or x for x in c["vw"]]
    return c


def c_pinkbad(c, ctx):
    how = c["how"]
    n, m = c["g"]["n"], len(c["g"]["s"])
    with Dir() as d:
        f = os.path.join(d, "g")
        write_pink(c, f)
        L = open(f).read().splitlines()
        req(len(L) == 4 + n + m, "the file has", len(L), "lines")
        k = c["k"]
        if how == "lines":
            if m == 0 and k % len(L) == len(L) - 1:
                raise Skip("the last line announces no edge")
            L = L[:k % len(L)]
        elif how == "vertex":
            L[3 + k % n] = "%d 1" % [-1, n, n + 5, 10 ** 12][k % 4]
        elif how == "edge":
            if m == 0:
                raise Skip("no edge")
            L[4 + n + k % m] = ["-1 0 1", "0 %d 1" % n, "%d 0 1" % (n + 3), "0 -7 1"][k % 4]
        elif how == "count":
            L[1] = ["0 %d" % m, "-%d %d" % (n, m), "%d -1" % n, "%d %d" % (n, m + 1), "%d %d" % (n + 1, m)][k % 5]
        elif how == "text":
            i = 3 + k % (n + m + 1)
            if i >= 3 + n:
                i += 1
            if i >= len(L):
                raise Skip("no such line")
            x = L[i].split()
            x[k % len(x)] = ["abc", "--", "x1"][k % 3]
            L[i] = " ".join(x)
        elif how == "header":
            L[0] = ["#rs x cs 3", "#rs", "#rs %d cs %d" % (n + 1, 3), "#rs 0 cs %d" % n][k % 4]
        else:
            rejected(lambda: hg.read_graph_pink(os.path.join(d, "missing")), "a missing file", ctx)
            rejected(lambda: hg.save_graph_pink(os.path.join(d, "no", "dir"), hg.get_4_adjacency_graph((2, 2))), "a file that cannot be opened for writing", ctx)
            return True
        open(f, "w").write("\n".join(L) + ("\n" if L else ""))
        rejected(lambda: hg.read_graph_pink(f), "the file damaged by '%s' (%d)" % (how, k), ctx)
    ctx.ev(how)
    return True


def s_pinktext(draw):
    g = G.graph(draw, max_v=8, min_v=1, extra=5, connected=None, multi=True, loops=True)
    return {"g": g, "vw": seq(draw, g["n"], 30), "ew": seq(draw, len(g["s"]), 30), "perm": G.seed32(draw), "hdr": draw(G.st.booleans()), "cr": G.choice(draw, ["\n", "\n", "\r\n", "\n\n"])}


def c_pinktext(c, ctx):
    """files written by others: no shape, vertices in any order, unordered edge extremities"""
    g = c["g"]
    n, m = g["n"], len(g["s"])
    rng = np.random.RandomState(c["perm"] % 2 ** 32)
    L = ["#rs %d cs 1" % n] if c["hdr"] else []
    L += ["%d %d" % (n, m), "val sommets"]
    L += ["%d %s" % (i, c["vw"][i] / 4) for i in rng.permutation(n)]
    L += ["arcs values"]
    E = []
    for s, t, w in zip(g["s"], g["t"], c["ew"]):
        if rng.randint(2):
            s, t = t, s
        E.append((s, t))
        L.append("%d %d %s" % (s, t, w / 8))
    with Dir() as d:
        f = os.path.join(d, "g")
        open(f, "w", newline="").write(c["cr"].join(L) + c["cr"])
        g2, v2, e2 = hg.read_graph_pink(f)
    s2, t2 = g2.edge_list()
    req(g2.num_vertices() == n, "vertices", g2.num_vertices())
    req([tuple(sorted(e)) for e in zip(s2.tolist(), t2.tolist())] == [tuple(sorted(e)) for e in E], "edges", s2, t2)
    req(np.array_equal(np.asarray(v2).ravel(), np.array(c["vw"]) / 4), "vertex weights", v2)
    req(np.array_equal(np.asarray(e2).ravel(), np.array(c["ew"]) / 8), "edge weights", e2)
    return n >= 3 and m >= 2


# ------------------------------------------------------------------ pickles and copies
def clone(x, how):
    if how == 0:
        return pickle.loads(pickle.dumps(x))
    if how == 1:
        return copy.deepcopy(x)
    if how == 2:
        return copy.copy(x)
    return pickle.loads(pickle.dumps(x, protocol=2 + how % 3))


def s_graphcopy(draw):
    ops = []
    for _ in range(G.integer(draw, 0, 25)):
        ops.append([G.integer(draw, 0, 9), G.integer(draw, 0, 60), G.integer(draw, 0, 60), G.integer(draw, 0, 60)])
    return {"n": G.integer(draw, 0, 6), "ops": ops, "how": G.integer(draw, 0, 4), "tail": [[G.integer(draw, 0, 9), G.integer(draw, 0, 60), G.integer(draw, 0, 60), G.integer(draw, 0, 60)] for _ in range(G.integer(draw, 0, 6))],
            "att": draw(G.st.booleans())}


def apply_op(g, op):
    k, a, b, e = op
    n, m = g.num_vertices(), g.num_edges()
    if k == 0 or n == 0:
        return ("v", g.add_vertex())
    if k <= 5:
        x = g.add_edge(a % n, b % n)
        return ("e", (x[0], x[1], x[2]))
    if m == 0:
        return None
    s = g.edge_from_index(e % m)
    if k <= 7:
        if s[0] >= 0:
            g.remove_edge(e % m)
    elif s[0] >= 0 and a % n != b % n and s[0] != s[1]:
        g.set_edge(e % m, a % n, b % n)
    return ("x",)


def graph_queries(g):
    n, m = g.num_vertices(), g.num_edges()
    r = {"n": n, "m": m, "edges": [tuple(g.edge_from_index(i)) for i in range(m)],
         "sources": g.sources().tolist(), "targets": g.targets().tolist(),
         "it": [tuple(e) for e in g.edges()], "vertices": list(g.vertices())}
    for v in range(n):
        r["v%d" % v] = (g.degree(v), g.in_degree(v), g.out_degree(v), sorted(tuple(sorted(e[:2])) + (e[2],) for e in g.out_edges(v)),
                        sorted(tuple(sorted(e[:2])) + (e[2],) for e in g.in_edges(v)), sorted(g.adjacent_vertices(v)))
    return r


def diff(a, b, what):
    for k in sorted(set(a) | set(b), key=str):
        req(a.get(k) == b.get(k), what, k, "is", b.get(k), "expected", a.get(k))


def c_graphcopy(c, ctx):
    g = hg.UndirectedGraph(c["n"])
    for op in c["ops"]:
        apply_op(g, op)
    arr = np.arange(g.num_edges()) * 2.5
    if c["att"]:
        hg.set_attribute(g, "myattr", arr)
        hg.add_tag(g, "mytag")
        g.plain = (1, 2)
    before = graph_queries(g)
    h = clone(g, c["how"])
    req(type(h) is hg.UndirectedGraph and h is not g, "type of the copy", type(h))
    diff(before, graph_queries(h), "copied graph:")
    if c["att"]:
        req(np.array_equal(hg.get_attribute(h, "myattr"), arr), "the attribute was not copied")
        req(hg.has_tag(h, "mytag") and h.plain == (1, 2), "the tag or the member was not copied")
    for op in c["tail"]:
        ra = apply_op(h, op)
        diff(before, graph_queries(g), "mutating the copy changed the original:")
    if c["att"]:
        hg.set_attribute(h, "other", 3)
        hg.add_tag(h, "othertag")
        req(hg.get_attribute(g, "other") is None and not hg.has_tag(g, "othertag"), "data attached to the copy is visible on the original")
        hg.set_attribute(g, "third", 3)
        req(hg.get_attribute(h, "third") is None, "data attached to the original is visible on the copy")
    # the same operations give the same graph
    for op in c["tail"]:
        apply_op(g, op)
    if c["tail"]:
        diff(graph_queries(g), graph_queries(h), "after the same operations:")
    rem = sum(1 for s in before["sources"] if s < 0)
    if rem:
        ctx.ev("removed edges")
    ctx.ev(["pickle", "deepcopy", "copy", "pickle", "pickle"][c["how"]])
    return before["m"] >= 3


def tree_queries(t, pairs):
    n = t.num_vertices()
    r = {"n": n, "leaves": t.num_leaves(), "root": t.root() if n else None, "parents": t.parents().tolist(), "cat": t.category(),
         "m": t.num_edges()}
    if n:
        r["ch"] = [list(t.children(i)) for i in range(n)]
        r["nc"] = [t.num_children(i) for i in range(n)]
        r["depth"] = np.asarray(hg.attribute_depth(t, no_cache=True)).tolist()
        a, b = np.array([x % n for x, _ in pairs], dtype=np.int64), np.array([x % n for _, x in pairs], dtype=np.int64)
        r["lca"] = np.asarray(t.lowest_common_ancestor(a, b)).tolist() if pairs else []
        r["edges"] = [tuple(e) for e in t.edges()]
    return r


def s_treecopy(draw):
    p = G.tree(draw, max_leaves=10, max_inner=8, unary=True, big=40)
    return {"p": p, "cat": G.integer(draw, 0, 1), "how": G.integer(draw, 0, 4), "lca": G.integer(draw, 0, 3), "bs": G.choice(draw, [1, 2, 3, 1024]),
            "ch": draw(G.st.booleans()), "pairs": [[G.integer(draw, 0, 10 ** 4), G.integer(draw, 0, 10 ** 4)] for _ in range(5)],
            "concept": draw(G.st.booleans()), "cached": draw(G.st.booleans())}


def c_treecopy(c, ctx):
    cat = hg.TreeCategory.ComponentTree if c["cat"] else hg.TreeCategory.PartitionTree
    t = hg.Tree(np.asarray(c["p"]), cat)
    n = t.num_vertices()
    if c["ch"]:
        t._compute_children()
    alt = np.arange(n) * 1.0
    hg.set_attribute(t, "altitudes", alt)
    if c["concept"]:
        g = hg.UndirectedGraph(t.num_leaves())
        if t.num_leaves() > 1:
            g.add_edge(0, t.num_leaves() - 1)
        hg.CptHierarchy.link(t, g)
    if c["cached"]:
        hg.attribute_area(t) if not c["concept"] else hg.attribute_depth(t)
    lca = None
    if n and c["lca"]:
        lca = t.lowest_common_ancestor_preprocess(algorithm="sparse_table" if c["lca"] == 1 else "sparse_table_block", block_size=c["bs"])
    before = tree_queries(t, c["pairs"])
    u = clone(t, c["how"])
    req(type(u) is hg.Tree and u is not t, "type of the copy")
    diff(before, tree_queries(u, c["pairs"]), "copied tree:")
    req(np.array_equal(hg.get_attribute(u, "altitudes"), alt), "attribute of the copy")
    req(np.array_equal(u.altitudes, alt), "dynamic attribute of the copy")
    if c["concept"]:
        req(hg.CptHierarchy.validate(u), "the concept is lost")
        lg = hg.CptHierarchy.get_leaf_graph(u)
        req(lg.num_vertices() == g.num_vertices() and lg.num_edges() == g.num_edges(), "leaf graph of the copy")
    if lca is not None:
        req(hg.get_attribute(u, "lca_fast") is not None, "the preprocessing is lost")
    hg.set_attribute(u, "new", 1)
    req(hg.get_attribute(t, "new") is None and "new" not in hg.list_attributes(t), "data attached to the copy is visible on the original")
    hg.clear_attributes(u)
    req(np.array_equal(hg.get_attribute(t, "altitudes"), alt), "clearing the copy cleared the original")
    t2 = t.sub_tree(t.root())[0] if n else None
    del t
    diff(before, tree_queries(u, c["pairs"]), "copied tree after the original is gone:")
    ctx.ev(["partition", "component"][c["cat"]])
    if c["lca"]:
        ctx.ev("lca")
    return n >= 4


def s_lca(draw):
    p = G.tree(draw, max_leaves=10, max_inner=8, unary=True, big=40, min_leaves=1)
    return {"p": p, "how": G.integer(draw, 0, 4), "alg": G.integer(draw, 0, 1), "bs": G.choice(draw, [1, 2, 3, 5, 1024]),
            "pairs": [[G.integer(draw, 0, 10 ** 4), G.integer(draw, 0, 10 ** 4)] for _ in range(8)]}


def c_lca(c, ctx):
    t = mk_tree(c["p"])
    n = t.num_vertices()
    R = T(c["p"])
    x = hg.LCA_rmq_sparse_table(t) if c["alg"] else hg.LCA_rmq_sparse_table_block(t, c["bs"])
    y = clone(x, c["how"])
    z = clone(y, 0)
    req(type(y) is type(x), "type of the copy")
    a = np.array([i % n for i, _ in c["pairs"]])
    b = np.array([i % n for _, i in c["pairs"]])
    exp = [R.lca(int(i), int(j)) for i, j in zip(a, b)]
    for o in (x, y, z):
        req(np.asarray(o.lca(a, b)).tolist() == exp, "lca", np.asarray(o.lca(a, b)).tolist(), "expected", exp)
        req(o.lca(int(a[0]), int(b[0])) == exp[0], "scalar lca")
    del x, t
    req(np.asarray(y.lca(a, b)).tolist() == exp, "lca after the original is gone")
    return n >= 4


def s_gridcopy(draw):
    d = G.integer(draw, 1, 5)
    sh = [G.integer(draw, 1, G.sz([12, 6, 4, 3, 2][d - 1], d)) for _ in range(d)]
    k = G.integer(draw, 0, 6)
    return {"sh": sh, "nb": [[G.integer(draw, -2, 2) for _ in range(d)] for _ in range(k)], "how": G.integer(draw, 0, 4), "att": draw(G.st.booleans())}


def grid_queries(g):
    n = g.num_vertices()
    r = {"n": n, "shape": tuple(g.shape), "nb": [tuple(x) for x in np.asarray(g.neighbour_list()).tolist()]}
    for v in range(n):
        r[v] = (g.degree(v), [tuple(e)[:2] for e in g.out_edges(v)], list(g.adjacent_vertices(v)))
    return r


def c_gridcopy(c, ctx):
    d = len(c["sh"])
    emb = getattr(hg, "EmbeddingGrid%dd" % d)(c["sh"])
    e2 = clone(emb, c["how"])
    req(type(e2) is type(emb) and list(e2.shape()) == c["sh"] and e2.size() == emb.size(), "embedding", list(e2.shape()))
    n = int(np.prod(c["sh"]))
    co = np.stack(np.unravel_index(np.arange(n), c["sh"]), axis=1)
    req(np.array_equal(e2.grid2lin(co), np.arange(n)), "grid2lin of the copy")
    req(np.array_equal(np.asarray(e2.lin2grid(np.arange(n))), co), "lin2grid of the copy")
    if not c["nb"]:
        return False
    g = getattr(hg, "RegularGraph%dd" % d)(c["sh"], c["nb"])
    if c["att"]:
        hg.set_attribute(g, "myattr", [1, 2])
    h = clone(g, c["how"])
    req(type(h) is type(g), "type of the copy")
    diff(grid_queries(g), grid_queries(h), "copied regular graph:")
    req(tuple(hg.CptGridGraph.get_shape(h)) == tuple(c["sh"]) and hg.CptGridGraph.validate(h), "shape attribute of the copy")
    if c["att"]:
        req(hg.get_attribute(h, "myattr") == [1, 2], "attribute of the copy")
        hg.set_attribute(h, "other", 1)
        req(hg.get_attribute(g, "other") is None, "data attached to the copy is visible on the original")
    a, b = g.as_explicit_graph(), h.as_explicit_graph()
    for x, y in zip(a.edge_list(), b.edge_list()):
        req(np.array_equal(x, y), "explicit graph of the copy")
    return n >= 3


# ------------------------------------------------------------------ scipy
def s_scipy(draw):
    p = G.tree(draw, max_leaves=16, binary=True, min_leaves=2)
    a = G.increasing_altitudes(draw, p, strict=draw(G.st.booleans()), levels=G.choice(draw, [2, 5, 1000]), zero_leaves=draw(G.st.booleans()))
    return {"p": p, "a": a, "area": G.integer(draw, 0, 2), "defalt": draw(G.st.integers(0, 7)) == 0, "big": G.choice(draw, [0, 0, 0, 2 ** 24, 2 ** 31 - 2000, 2 ** 40])}


def c_scipy(c, ctx):
    from scipy.cluster.hierarchy import is_valid_linkage, cophenet
    p = c["p"]
    t = mk_tree(p)
    R = T(p)
    n, nl = R.n, R.nl
    alt = np.array(c["a"]["v"], dtype=c["a"]["dtype"])
    if c["big"] and alt.dtype.kind == "i" and alt.dtype.itemsize >= (8 if c["big"] > 2 ** 31 else 4) or c["big"] and alt.dtype == np.float64:
        alt = alt + np.array(c["big"], dtype=alt.dtype)
        ctx.ev("large altitudes")
    area = None
    if c["area"] == 1:
        area = np.array([len(R.leaves_of[i]) * 3 for i in range(n)])
    elif c["area"] == 2:
        area = np.array([len(R.leaves_of[i]) for i in range(n)], dtype=np.float64)
    if c["defalt"]:
        M = hg.binary_hierarchy_to_scipy_linkage_matrix(t)
        alt = np.asarray(hg.attribute_regular_altitudes(t))
        area = None
    else:
        M = hg.binary_hierarchy_to_scipy_linkage_matrix(t, altitudes=alt, area=area)
    M = np.asarray(M)
    req(M.shape == (nl - 1, 4), "shape of the matrix", M.shape)
    ar = np.array([len(R.leaves_of[i]) for i in range(n)]) if area is None else area
    for i in range(nl, n):
        r = M[i - nl]
        req({int(r[0]), int(r[1])} == set(R.ch[i]), "row", i - nl, "merges", r[:2].tolist(), "expected", R.ch[i])
        req(r[2] == alt[i], "altitude of row", i - nl, "is", repr(r[2]), "expected", repr(alt[i]))
        req(r[3] == ar[i], "area of row", i - nl, "is", r[3], "expected", ar[i])
    req(M.dtype == np.float64, "type of the matrix", M.dtype)
    t2, a2, ar2 = hg.scipy_linkage_matrix_to_binary_hierarchy(M)
    req(np.array_equal(t2.parents(), p), "parents of the tree read back", t2.parents().tolist(), "expected", p)
    req(np.array_equal(np.asarray(a2)[nl:], alt[nl:].astype(np.float64)), "altitudes", np.asarray(a2).tolist(), "expected", alt.tolist())
    req(np.array_equal(np.asarray(ar2)[nl:], ar[nl:]), "areas", np.asarray(ar2).tolist(), "expected", ar.tolist())
    req(np.asarray(a2).shape == (n,) and np.all(np.asarray(a2)[:nl] == 0) and np.all(np.asarray(ar2)[:nl] == 1), "values on the leaves", np.asarray(a2)[:nl], np.asarray(ar2)[:nl])
    if area is None and np.all(alt[nl:] >= 0):
        req(is_valid_linkage(M), "SciPy does not recognize the matrix")
        d = cophenet(M)
        k = 0
        for i in range(nl):
            for j in range(i + 1, nl):
                req(d[k] == alt[R.lca(i, j)], "cophenetic distance of", (i, j), "is", d[k], "expected", alt[R.lca(i, j)])
                k += 1
        ctx.ev("read by SciPy")
    return nl >= 3


def s_linkage(draw):
    n = G.integer(draw, 2, G.sz(14))
    return {"x": [seq(draw, 2, 40) for _ in range(n)], "m": G.choice(draw, ["single", "complete", "average", "ward", "weighted"]), "bad": G.integer(draw, 0, 9), "k": G.integer(draw, 0, 1000),
            "f32": draw(G.st.booleans())}


def c_linkage(c, ctx):
    from scipy.cluster.hierarchy import linkage, cophenet
    x = np.array(c["x"], dtype=float)
    Z = linkage(x, method=c["m"])
    n = len(x)
    t, a, area = hg.scipy_linkage_matrix_to_binary_hierarchy(Z if not c["f32"] else np.asfortranarray(Z))
    R = T(t.parents().tolist())
    req(R.nl == n and R.n == 2 * n - 1, "size of the tree", (R.nl, R.n))
    a, area = np.asarray(a), np.asarray(area)
    d, k = cophenet(Z), 0
    for i in range(n):
        for j in range(i + 1, n):
            req(d[k] == a[R.lca(i, j)], "distance of", (i, j), "is", a[R.lca(i, j)], "expected", d[k])
            k += 1
    for i in range(R.n):
        req(area[i] == len(R.leaves_of[i]), "area of", i, "is", area[i])
    Z2 = np.asarray(hg.binary_hierarchy_to_scipy_linkage_matrix(t, a, area))
    req(np.array_equal(np.sort(Z2[:, :2], axis=1), np.sort(Z[:, :2], axis=1)) and np.array_equal(Z2[:, 2:], Z[:, 2:]), "matrix after a round trip", Z2.tolist(), "expected", Z.tolist())
    # malformed matrices
    B = Z.copy()
    b, r, col = c["bad"], c["k"] % (n - 1), (c["k"] // 17) % 2
    if b == 0:
        B[r, col] = [-1, 2 * n - 1, 2 * n + 50, 1e15, float("nan"), float("inf")][c["k"] % 6]
    elif b == 1:
        B[r, col] = B[r, 1 - col]         # the same cluster twice
    elif b == 2:
        B[r, col] = n + r                 # itself
    elif b == 3:
        B = B[:, :3]
    elif b == 4:
        B = B.ravel()
    elif b == 5 and n > 2:
        B[-1, 0] = B[0, 0]                # a cluster merged twice, another one never
    else:
        return n >= 3
    rejected(lambda: hg.scipy_linkage_matrix_to_binary_hierarchy(B), "malformed matrix %s" % B.tolist(), ctx)
    ctx.ev("bad %d" % b)
    return n >= 3


# ------------------------------------------------------------------ text drawings

def s_print(draw):
    p = G.tree(draw, max_leaves=G.choice(draw, [3, 6, 9, 14]), max_inner=8, unary=False, min_leaves=1)
    n = len(p)
    nl = G.num_leaves(p)
    inc = seq(draw, n, 3)
    mode = G.choice(draw, ["distinct", "distinct", "distinct", "ties", "none"])
    a, cur = [0] * n, G.integer(draw, -5, 5)
    for i in range(nl, n):
        cur += inc[i] + (mode == "distinct")
        a[i] = cur
    return {"p": p, "a": a, "mode": mode, "dt": G.choice(draw, ["float64", "int64", "int32", "float32"]), "leaf": G.boolean(draw),
            "ord": G.choice(draw, ["area", "altitudes", "none", "leaves"]), "scale": G.choice(draw, ["linear", "linear", "log"]), "fs": G.integer(draw, 2, 7),
            "print": G.boolean(draw)}


def c_print(c, ctx):
    r = T(c["p"])
    n, nl = r.n, r.nl
    t = hg.Tree(np.array(c["p"]))
    alt = np.array(c["a"], dtype=c["dt"])
    if not c["leaf"]:
        alt[:nl] = alt[nl:].min() if n > nl else 0
    kw = {"attribute": np.arange(n), "float_size": c["fs"], "ordering": c["ord"], "scale": c["scale"]}
    if c["mode"] != "none":
        kw["altitudes"] = alt
    alt0 = alt.copy()
    if c["print"]:
        import io
        import contextlib
        f = io.StringIO()
        with contextlib.redirect_stdout(f):
            res = hg.print_partition_tree(t, **kw)
        req(res is None, "print_partition_tree returns", res)
        text = f.getvalue().rstrip("\n")
        ctx.ev("printed")
    else:
        text = hg.print_partition_tree(t, return_string=True, **kw)
    req(np.array_equal(alt, alt0), "altitudes modified")
    fs = max(3, c["fs"])
    half = max(1, fs // 2)
    lines = text.split("\n")
    lw = 2 if nl >= 10 else 1
    # the leaves are in the first columns, each of them in its own line
    rows = {}
    for y, l in enumerate(lines):
        h = l[:lw].strip(" -|")
        if h:
            req(h.isdigit() and int(h) < nl and int(h) not in rows, "unexpected leaf", h, "in", text)
            rows[int(h)] = y
    req(len(rows) == nl, "leaves", sorted(rows), "instead of", nl, "in", text)
    if c["ord"] == "leaves":
        req([y for _, y in sorted(rows.items())] == sorted(rows.values()), "order of the leaves", rows)
    if c["mode"] != "distinct" or c["ord"] == "leaves":
        return n > nl + 1
    # then the attribute of each node, which ends a few columns after the branches of its children
    pos = {}
    for y, l in enumerate(lines):
        for m in re.finditer(r"\d+", l[lw:]):
            i = int(m.group())
            req(nl <= i < n and i not in pos, "unexpected number", i, "in", text)
            pos[i] = (y, lw + m.end() - fs)
    req(len(pos) == n - nl, "nodes", sorted(pos), "in", text)
    if c["scale"] == "linear":
        a, x = [c["a"][i] for i in range(nl, n)], [pos[i][1] for i in range(nl, n)]
        for i in range(nl, n):
            k = (x[-1] - x[0]) * (a[i - nl] - a[0]) / (a[-1] - a[0]) if n > nl + 1 else 0
            req(abs(pos[i][1] - x[0] - k) <= 1, "node", i, "in column", pos[i][1], "not proportional to its altitude", a, x)
    for i in range(n):
        if i == r.root:
            continue
        if i < nl:
            y, x = rows[i], lw
        else:
            y, x = pos[i][0], pos[i][1] + fs
        l = lines[y]
        e = x
        while e < len(l) and l[e] == "-":
            e += 1
        py, px = pos[r.p[i]]
        if py == y:
            req(e == px, "the branch of node", i, "ends in column", e, "its parent", r.p[i], "is in", px, "\n" + text)
        else:
            nx = px + half + 1
            req(e == nx + 1 or (e == nx and l[e:e + 1] == "|"), "the branch of node", i, "ends in column", e, "its parent", r.p[i], "is in", px, "\n" + text)
            for z in range(min(y, py) + 1, max(y, py)):
                req(len(lines[z]) > nx and lines[z][nx] in "|-", "broken branch from", i, "to", r.p[i], "\n" + text)
    return n > nl + 1


SUBTESTS = [
    Sub("tree_file", s_treefile, c_treefile, 500, rule="tree of at least 4 nodes saved with at least one attribute"),
    Sub("tree_damaged", s_treebad, c_treebad, 500, rule="every case is a damaged or missing file"),
    Sub("pink_file", s_pink, c_pink, 500, rule="graph of at least 4 vertices and 2 edges"),
    Sub("pink_damaged", s_pinkbad, c_pinkbad, 500, rule="every case is a damaged or missing file"),
    Sub("pink_text", s_pinktext, c_pinktext, 200, rule="at least 3 vertices and 2 edges"),
    Sub("graph_copy", s_graphcopy, c_graphcopy, 500, rule="at least 3 edges were created"),
    Sub("tree_copy", s_treecopy, c_treecopy, 500, rule="tree of at least 4 nodes"),
    Sub("lca_copy", s_lca, c_lca, 200, rule="tree of at least 4 nodes"),
    Sub("grid_copy", s_gridcopy, c_gridcopy, 300, rule="grid of at least 3 points with neighbours"),
    Sub("scipy", s_scipy, c_scipy, 400, rule="at least 3 leaves"),
    Sub("printed", s_print, c_print, 500, big=0, rule="at least two inner nodes"),
    Sub("linkage", s_linkage, c_linkage, 300, rule="at least 3 points"),
]
