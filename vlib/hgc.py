"""Building higra objects from generated cases (used inside workers only)."""
import numpy as np
import higra as hg
from .ref import arr, T  # noqa


def mk_tree(parents, children=0, category=None):
    p = np.array(parents, dtype=np.int64)
    t = hg.Tree(p) if category is None else hg.Tree(p, category)
    if children == 1:
        t._compute_children() if hasattr(t, "_compute_children") else t.children(t.root())
    elif children == 2:
        t.children(t.root())
        t.clear_children()
    return t


def mk_graph(g, optimized=False):
    gr = hg.UndirectedGraphOptimizedDelete(g["n"]) if optimized else hg.UndirectedGraph(g["n"])
    if len(g["s"]):
        gr.add_edges(np.array(g["s"], dtype=np.int64), np.array(g["t"], dtype=np.int64))
    return gr


def lst(a):
    """nested python list of a numpy array"""
    return np.asarray(a).tolist()
