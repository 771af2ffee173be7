"""Following a coordinate along the edges of the landmark complex.

The data set is the landmarks together with dense samples of every edge, realised as straight segments
in the sup-norm space in which the landmarks embed isometrically (Kuratowski), so that all distances are those of
a genuine metric. The input is the landmarks-by-points part of its distance matrix."""
import numpy as np
from . import ref


class Paths:
    def __init__(self, DLL, edges, steps):
        self.DLL = np.asarray(DLL, dtype=float)
        self.L = L = len(DLL)
        self.edges = list(edges)
        self.steps = steps
        cols = [self.DLL]
        self.at = {}
        pos = L
        t = np.arange(1, steps) / steps
        for (i, j) in self.edges:
            P = (1 - t)[:, None] * self.DLL[i][None, :] + t[:, None] * self.DLL[j][None, :]  # coordinates
            D = np.abs(P[:, :, None] - self.DLL[None, :, :]).max(1)  # to every landmark
            cols.append(D.T)
            self.at[(i, j)] = np.concatenate([[i], np.arange(pos, pos + steps - 1), [j]])
            pos += steps - 1
        self.X = np.concatenate(cols, 1)
        self.n = pos


def forest(L, edges):
    """Spanning forest: parent pointers, and the edges left over."""
    adj = {i: [] for i in range(L)}
    for e in edges:
        adj[e[0]].append(e)
        adj[e[1]].append(e)
    parent, order, used = {}, [], set()
    for s in range(L):
        if s in parent:
            continue
        parent[s] = None
        q = [s]
        while q:
            v = q.pop(0)
            order.append(v)
            for e in adj[v]:
                w = e[0] + e[1] - v
                if w not in parent:
                    parent[w] = v
                    used.add(e)
                    q.append(w)
    return parent, order, [e for e in edges if e not in used]


def potential(L, edges, val, add, neg, zero):
    """Integrate an edge function over the spanning forest; returns the potential and the holonomy of each extra edge."""
    parent, order, rest = forest(L, edges)
    pot = {}
    for v in order:
        u = parent[v]
        if u is None:
            pot[v] = zero
        elif (u, v) in val:
            pot[v] = add(pot[u], val[(u, v)])
        else:
            pot[v] = add(pot[u], neg(val[(v, u)]))
    hol = {e: add(add(pot[e[0]], val[e]), neg(pot[e[1]])) for e in rest}
    return pot, hol


def angle_increments(th, P):
    """Increment (turns) along every edge and the largest step (radians)."""
    inc, big = {}, 0.0
    for e, idx in P.at.items():
        a = th[idx]
        d = np.angle(np.exp(1j * np.diff(a)))
        big = max(big, float(np.abs(d).max()))
        inc[e] = float(d.sum() / (2 * np.pi))
    return inc, big


def sampled_edges(DLL, R, keep):
    L = len(DLL)
    return [(i, j) for i in range(L) for j in range(i + 1, L) if DLL[i, j] < keep * R]


def winding_cochain(th, P):
    """Integer cochain measuring the coordinate: n_ij = increment - (g_j - g_i), g in [0,1)."""
    g = (th[: P.L] / (2 * np.pi)) % 1.0
    inc, big = angle_increments(th, P)
    out, off = {}, 0.0
    for (i, j), v in inc.items():
        x = v - (g[j] - g[i])
        n = int(np.rint(x))
        off = max(off, abs(x - n))
        out[(i, j)] = n
    return out, big, off


def triangles_of(L, edges):
    A = np.zeros((L, L), dtype=bool)
    for i, j in edges:
        A[i, j] = A[j, i] = True
    return ref.triangles(A), A


def cycles(n, L, edges):
    """Values of a 1-cochain (dict on increasing edges) on the fundamental cycles."""
    _, hol = potential(L, edges, n, lambda a, b: a + b, lambda a: -a, 0)
    return hol
