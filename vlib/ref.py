"""Naive reference helpers shared by the oracles (pure Python / numpy, nothing from higra)."""
import numpy as np


def arr(w):
    """numpy array of a generated weight dict, in the requested memory layout."""
    a = np.array(w["v"], dtype=w["dtype"])
    if "c" in w:
        a = a.reshape((-1, w["c"]))
    if "shape" in w:
        a = a.reshape(w["shape"])
    lay = w.get("layout", 0)
    if lay == 1:
        b = np.empty((a.shape[0] * 2,) + a.shape[1:], dtype=a.dtype)
        b[...] = 77
        b[::2] = a
        a = b[::2]
    elif lay == 2:
        a = np.ascontiguousarray(a[::-1])[::-1]
    elif lay == 3:
        a = np.asfortranarray(a)
    return a


class T:
    """Reference tree."""

    def __init__(self, parents):
        self.p = list(parents)
        self.n = len(self.p)
        self.ch = [[] for _ in range(self.n)]
        for i in range(self.n):
            if self.p[i] != i:
                self.ch[self.p[i]].append(i)
        self.root = self.n - 1
        self.nl = 1 if self.n == 1 else sum(1 for c in self.ch if not c)
        self.leaves_of = [None] * self.n
        for i in range(self.n):
            if not self.ch[i]:
                self.leaves_of[i] = frozenset([i])
            else:
                s = set()
                for c in self.ch[i]:
                    s |= self.leaves_of[c]
                self.leaves_of[i] = frozenset(s)
        self.depth = [0] * self.n
        for i in range(self.n - 2, -1, -1):
            self.depth[i] = self.depth[self.p[i]] + 1

    def anc(self, i):
        r = [i]
        while self.p[i] != i:
            i = self.p[i]
            r.append(i)
        return r

    def lca(self, a, b):
        while a != b:
            if a < b:
                a = self.p[a]
            else:
                b = self.p[b]
        return a

    def inner(self):
        return range(self.nl, self.n)

    def desc(self, i):
        """all descendants of i, itself included, in increasing order"""
        ok = [False] * self.n
        ok[i] = True
        for j in range(i - 1, -1, -1):
            if ok[self.p[j]]:
                ok[j] = True
        return [j for j in range(i + 1) if ok[j]]


class UF:
    def __init__(self, n):
        self.f = list(range(n))

    def find(self, i):
        while self.f[i] != i:
            i = self.f[i]
        return i

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a == b:
            return False
        if a < b:
            self.f[b] = a
        else:
            self.f[a] = b
        return True


def components(n, edges):
    """list of component representative (smallest vertex) per vertex"""
    u = UF(n)
    for s, t in edges:
        u.union(s, t)
    return [u.find(i) for i in range(n)]


def same_partition(a, b):
    """two label sequences define the same partition"""
    a, b = list(np.ravel(a)), list(np.ravel(b))
    if len(a) != len(b):
        return False
    f, g = {}, {}
    for x, y in zip(a, b):
        if f.setdefault(x, y) != y or g.setdefault(y, x) != x:
            return False
    return True


def minimax(n, edges, w):
    """n x n matrix of minimax path weights (edges: list of pairs), -inf on the diagonal, inf if disconnected"""
    d = [[np.inf] * n for _ in range(n)]
    for i in range(n):
        d[i][i] = -np.inf
    u = UF(n)
    comp = {i: [i] for i in range(n)}
    for k in sorted(range(len(edges)), key=lambda k: w[k]):
        s, t = edges[k]
        a, b = u.find(s), u.find(t)
        if a == b:
            continue
        for x in comp[a]:
            for y in comp[b]:
                d[x][y] = d[y][x] = w[k]
        u.union(a, b)
        r = u.find(a)
        o = a + b - r
        comp[r] = comp[r] + comp.pop(o)
    return d


def mat_edges(g):
    return list(zip(g["s"], g["t"]))
