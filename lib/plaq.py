"""Reading the first Chern class off a map into complex projective space.

The data set is the landmarks with samples of every small landmark triangle (sup-norm simplices, as in holo)."""
import numpy as np
from . import ref


class Triangles:
    def __init__(self, DLL, R, keep, m):
        self.DLL = np.asarray(DLL, dtype=float)
        L = len(DLL)
        self.L, self.m = L, m
        A = (self.DLL < keep * R) & ~np.eye(L, dtype=bool)
        self.A = A
        self.edges = [(i, j) for i in range(L) for j in range(i + 1, L) if A[i, j]]
        self.tris = ref.triangles(A)
        cols, pos = [self.DLL], L
        self.on_edge, self.inside = {}, {}

        def add(P):
            nonlocal pos
            cols.append(np.abs(P[:, :, None] - self.DLL[None, :, :]).max(1).T)
            r = np.arange(pos, pos + len(P))
            pos += len(P)
            return r

        t = np.arange(1, m) / m
        for (i, j) in self.edges:
            idx = add((1 - t)[:, None] * self.DLL[i] + t[:, None] * self.DLL[j]) if m > 1 else np.array([], int)
            self.on_edge[(i, j)] = np.concatenate([[i], idx, [j]])
        bary = [(a, b) for a in range(1, m) for b in range(1, m - a)]
        for (i, j, k) in self.tris:
            if bary:
                ab = np.array(bary) / m
                P = (1 - ab.sum(1))[:, None] * self.DLL[i] + ab[:, :1] * self.DLL[j] + ab[:, 1:] * self.DLL[k]
                idx = add(P)
            else:
                idx = []
            self.inside[(i, j, k)] = {ab: int(v) for ab, v in zip(bary, idx)}
        self.X = np.concatenate(cols, 1)
        self.n = pos

    def point(self, tri, a, b):
        """Index of the sample (1-a-b)*i + a*j + b*k, a and b in steps of 1/m."""
        i, j, k = tri
        m = self.m
        c = m - a - b
        if a == 0 and b == 0:
            return i
        if a == m:
            return j
        if b == m:
            return k
        if b == 0:
            return self.on_edge[(i, j)][a]
        if a == 0:
            return self.on_edge[(i, k)][b]
        if c == 0:
            return self.on_edge[(j, k)][b]
        return self.inside[tri][(a, b)]


def chern_cochain(V, S):
    """Integer 2-cochain of the line bundle pulled back by the rows of V; also how coarse the sampling is.

    Returns (dict triangle -> integer, smallest inner product met, largest plaquette angle, distance from integrality)."""
    V = V / np.linalg.norm(V, axis=1)[:, None]

    def step(a, b):
        return np.vdot(V[a], V[b])

    small, big, off = 1.0, 0.0, 0.0
    edge = {}
    for e, idx in S.on_edge.items():
        z = np.array([step(idx[t], idx[t + 1]) for t in range(len(idx) - 1)])
        small = min(small, float(np.abs(z).min()))
        edge[e] = float(np.angle(np.prod(z / np.abs(z)))) if np.abs(z).min() > 0 else 0.0
    out = {}
    m = S.m
    for tri in S.tris:
        F = 0.0
        for a in range(m):
            for b in range(m - a):
                quads = [((a, b), (a + 1, b), (a, b + 1))]
                if a + b + 2 <= m:
                    quads.append(((a + 1, b), (a + 1, b + 1), (a, b + 1)))
                for q in quads:
                    x, y, z = (S.point(tri, *u) for u in q)
                    s = [step(x, y), step(y, z), step(z, x)]
                    small = min(small, min(abs(v) for v in s))
                    ang = float(np.angle(s[0] * s[1] * s[2]))
                    big = max(big, abs(ang))
                    F += ang
        i, j, k = tri
        n = (F - (edge[(i, j)] + edge[(j, k)] - edge[(i, k)])) / (2 * np.pi)
        off = max(off, abs(n - round(n)))
        out[tri] = int(round(n))
    return out, small, big, off
