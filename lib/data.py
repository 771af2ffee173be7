"""Datasets for the coordinate checks, from JSON-able recipes."""
import itertools
import numpy as np
from hypothesis import strategies as st
from .strat import rng, SEED, mix, lay, grid


def pdist(X):
    X = np.asarray(X, dtype=float)
    return np.sqrt(np.maximum(((X[:, None, :] - X[None, :, :]) ** 2).sum(-1), 0))


def shortest(W):
    S = W.copy()
    np.fill_diagonal(S, 0)
    for v in range(len(S)):
        S = np.minimum(S, S[:, [v]] + S[[v], :])
    return S


def embed(X, d, g):
    """A random isometric embedding into R^d."""
    if d <= X.shape[1]:
        return X
    Q, _ = np.linalg.qr(g.normal(size=(d, d)))
    return X @ Q[: X.shape[1], :]


# ---- flag complexes, as metrics with values in [1, 2] ----------------------------------------------------------

RP2_6 = [(0, 1, 2), (0, 2, 3), (0, 3, 4), (0, 4, 5), (0, 1, 5), (1, 2, 4), (2, 3, 5), (1, 3, 4), (2, 4, 5), (1, 3, 5)]


def barycentric(tris):
    """Edges of the barycentric subdivision of a 2-complex (a flag complex)."""
    simp = set()
    for t in tris:
        for k in (1, 2, 3):
            for s in itertools.combinations(sorted(t), k):
                simp.add(s)
    simp = sorted(simp, key=lambda s: (len(s), s))
    idx = {s: i for i, s in enumerate(simp)}
    edges = []
    for a in simp:
        for b in simp:
            if len(a) < len(b) and set(a) < set(b):
                edges.append((idx[a], idx[b]))
    return len(simp), edges


def moore_tris(q, rings=1):
    """A triangulated disk whose boundary wraps q times around a circle of 3 (or more) vertices."""
    c = 3
    m = q * c
    # boundary vertices 0..c-1; inner ring of m vertices; centre
    inner = list(range(c, c + m))
    centre = c + m
    tris = []
    for k in range(m):
        a, b = k % c, (k + 1) % c
        i, j = inner[k], inner[(k + 1) % m]
        tris += [(a, b, i), (b, i, j), (i, j, centre)]
    return tris


def surface_grid(a, b, kind):
    """Triangulated a x b grid with identified sides."""
    def v(i, j):
        if kind == "torus":
            return (i % a) * b + (j % b)
        if kind == "klein":
            w, i2 = divmod(i, a)
            return i2 * b + ((-j) % b if w % 2 else j % b)
        raise ValueError(kind)
    tris = []
    for i in range(a):
        for j in range(b):
            tris.append((v(i, j), v(i + 1, j), v(i + 1, j + 1)))
            tris.append((v(i, j), v(i, j + 1), v(i + 1, j + 1)))
    return tris


def edges_of(tris):
    return sorted({tuple(sorted(e)) for t in tris for e in itertools.combinations(t, 2)})


def flag_metric(n, edges, g, jitter):
    D = np.full((n, n), 2.0)
    D -= np.triu(g.random((n, n)), 1) * jitter
    for i, j in edges:
        a, b = min(i, j), max(i, j)
        D[a, b] = 1.0 + g.random() * jitter
    D = np.triu(D, 1)
    return D + D.T


def complex_by_name(name, g, size):
    """(number of vertices, edges) of a flag complex"""
    if name == "rp2":
        return barycentric(RP2_6)
    if name == "moore3":
        n, e = barycentric(moore_tris(3))
        return n, e
    if name == "cycle":
        n = 4 + size % 8
        return n, [(i, (i + 1) % n) for i in range(n)]
    if name == "theta":
        k = 3 + size % 3
        n = 2
        e = []
        for _ in range(k):
            m = 2 + int(g.integers(0, 2))
            path = [0] + list(range(n, n + m)) + [1]
            n += m
            e += list(zip(path, path[1:]))
        return n, e
    if name == "torus":
        a, b = 4 + size % 2, 4 + (size // 2) % 2
        return a * b, edges_of(surface_grid(a, b, "torus"))
    if name == "klein":
        a, b = 5, 5
        return a * b, edges_of(surface_grid(a, b, "klein"))
    if name == "octahedron":
        return 6, [(i, j) for i in range(6) for j in range(i + 1, 6) if i // 2 != j // 2]
    if name == "icosahedron":
        p = (1 + 5**0.5) / 2
        V = np.array([(0, s, t * p) for s in (1, -1) for t in (1, -1)])
        V = np.concatenate([np.roll(V, k, axis=1) for k in range(3)])
        D = pdist(V)
        return 12, [(i, j) for i in range(12) for j in range(i + 1, 12) if D[i, j] < 2.1]
    if name == "random":
        n = 7 + size % 8
        p = 0.25 + 0.35 * g.random()
        return n, [(i, j) for i in range(n) for j in range(i + 1, n) if g.random() < p]
    if name == "web":
        # a tree and a few more edges, mostly without triangles: several independent short cycles
        n = 6 + size % 7
        e = {(int(g.integers(max(0, i - 4), i)), i) for i in range(1, n)}
        for _ in range(40 * n):
            if len(e) >= n + 2 + size % 4:
                break
            i, j = sorted(int(v) for v in g.choice(n, 2, replace=False))
            if not any((min(i, k), max(i, k)) in e and (min(j, k), max(j, k)) in e for k in range(n)) or g.random() < 0.02:
                e.add((i, j))
        return n, sorted(e)
    if name.startswith(("tele", "cone")):
        # the mapping cylinder of degree m over a short cycle; its wide end narrowed to a short loop, or coned off
        m, c = int(name[4:]), 4
        core = list(range(c))
        w = list(range(c, c + m * c))
        e = [(core[k], core[(k + 1) % c]) for k in range(c)]
        e += [(w[k], w[(k + 1) % (m * c)]) for k in range(m * c)]
        for k in range(m * c):
            e += [(core[k % c], w[k]), (core[(k + 1) % c], w[k])]
        n = c + m * c
        if name.startswith("cone"):
            return n + 1, e + [(v, n) for v in w]
        o = list(range(n, n + 4))
        seg = [k * 4 // (m * c) for k in range(m * c)]
        for k in range(m * c):
            e.append((w[k], o[seg[k]]))
            if seg[k] != seg[(k + 1) % (m * c)]:
                e.append((w[k], o[seg[(k + 1) % (m * c)]]))
        e += [(o[k], o[(k + 1) % 4]) for k in range(4)]
        return n + 4, e
    if name.startswith("mix"):
        # torsion and free classes side by side
        parts = [["cone" + name[3:], "cycle"], ["cycle", "cone" + name[3:]], ["tele" + name[3:], "cone" + name[3:]], ["cone" + name[3:], "tele" + name[3:]]][size % 4]
        n, e = complex_by_name(parts[0], g, 0)
        m, f = complex_by_name(parts[1], g, 0)
        return n + m - 1, e + [tuple(0 if v == 0 else v + n - 1 for v in x) for x in f]
    if name.startswith("susp_"):
        n, e = complex_by_name(name[5:], g, size)
        return n + 2, e + [(i, n) for i in range(n)] + [(i, n + 1) for i in range(n)]
    if name.startswith("wedge_"):
        n, e = complex_by_name(name[6:], g, size)
        m, f = complex_by_name(name[6:], g, size)
        f = [(0 if i == 0 else i + n - 1, 0 if j == 0 else j + n - 1) for i, j in f]
        return n + m - 1, e + f
    raise ValueError(name)


# ---- spaces ---------------------------------------------------------------------------------------------------

def sphere_points(n, g, even):
    if even:
        i = np.arange(n) + 0.5
        ph = np.arccos(1 - 2 * i / n)
        th = np.pi * (1 + 5**0.5) * i
        X = np.stack([np.cos(th) * np.sin(ph), np.sin(th) * np.sin(ph), np.cos(ph)], 1)
    else:
        X = g.normal(size=(n, 3))
    return X / np.linalg.norm(X, axis=1)[:, None]


def space(rec):
    """(points or None, distance matrix or None) of a recipe"""
    g = rng(rec["seed"], 11)
    k, n, z = rec["space"], rec["n"], rec.get("noise", 0.1)
    X = D = None
    if k in ("circle", "ellipse"):
        t = (np.arange(n) + z * (g.random(n) - 0.5)) / n * 2 * np.pi
        X = np.stack([np.cos(t), (0.6 if k == "ellipse" else 1) * np.sin(t)], 1)
        X += 0.5 * z / n * g.normal(size=X.shape)
    elif k == "fig8":
        t = (np.arange(n) + z * (g.random(n) - 0.5)) / n * 2 * np.pi * 2
        s = np.where(t < 2 * np.pi, 1.0, -1.0)
        X = np.stack([s * (1 - np.cos(t)), np.sin(t)], 1)
        X += 0.02 * z * g.normal(size=X.shape)
    elif k == "twocircles":
        t = (np.arange(n) + z * (g.random(n) - 0.5)) / n * 2 * np.pi * 2
        X = np.stack([np.cos(t), np.sin(t)], 1) * np.where(t < 2 * np.pi, 1.0, 0.8)[:, None]
        X[t >= 2 * np.pi, 0] += 6.0
        X += 0.02 * z * g.normal(size=X.shape)
    elif k == "threecircles":
        t = (np.arange(n) + z * (g.random(n) - 0.5)) / n * 2 * np.pi * 3
        X = np.stack([np.cos(t), np.sin(t)], 1)
        X[:, 0] += 2.5 * (t // (2 * np.pi))
        X += 0.02 * z * g.normal(size=X.shape)
    elif k == "clifford":
        a = max(3, int(round(np.sqrt(n))))
        u = (np.arange(a)[:, None] + z * (g.random((a, a)) - 0.5)) / a * 2 * np.pi
        v = (np.arange(a)[None, :] + z * (g.random((a, a)) - 0.5)) / a * 2 * np.pi
        u, v = u.ravel(), v.ravel()
        asp = rec.get("aspect", 1.0)
        X = np.stack([np.cos(u), np.sin(u), asp * np.cos(v), asp * np.sin(v)], 1)
    elif k == "random":
        X = g.random((n, max(2, rec.get("dim", 2))))
    elif k == "annulus":
        t, r = g.random(n) * 2 * np.pi, 1 + 0.5 * g.random(n)
        X = np.stack([r * np.cos(t), r * np.sin(t)], 1)
    elif k == "lattice":
        m = 6
        idx = g.permutation(m * m)[: min(n, m * m)]
        X = np.stack([idx % m, idx // m], 1).astype(float)
    elif k == "explicit":
        X = np.array(sorted({tuple(p) for p in rec["pts"]}), dtype=float)
        if len(X) < 4:
            X = np.concatenate([X, [[101, 100], [100, 101.5], [103, 100]]])
        X = X[rng(rec["seed"], 5).permutation(len(X))]
    elif k == "graph":
        W = np.full((n, n), np.inf)
        for i in range(1, n):
            j = int(g.integers(max(0, i - 3), i))
            W[i, j] = W[j, i] = 0.5 + g.random()
        for _ in range(max(1, n // 4)):
            i, j = g.choice(n, 2, replace=False)
            W[i, j] = W[j, i] = 0.5 + g.random()
        D = shortest(W)
    elif k == "cyclegraph":
        w = 1 + z * (g.random(n) - 0.5)
        W = np.full((n, n), np.inf)
        for i in range(n):
            W[i, (i + 1) % n] = W[(i + 1) % n, i] = w[i]
        D = shortest(W)
    elif k == "rp2":
        S = sphere_points(n, g, False)
        D = np.arccos(np.clip(np.abs(S @ S.T), 0, 1))
        np.fill_diagonal(D, 0)
        D = (D + D.T) / 2
    elif k == "klein":
        t, p = g.random(n) * 2 * np.pi, g.random(n) * 2 * np.pi
        X = np.stack([(2 + np.cos(t)) * np.cos(p), (2 + np.cos(t)) * np.sin(p), np.sin(t) * np.cos(p / 2), np.sin(t) * np.sin(p / 2)], 1)
    elif k == "skewtorus":
        # R^m modulo a skewed lattice, sampled near a grid
        m = 2 + rec.get("size", 0) % 2 if n >= 27 else 2
        a = max(3, int(round(n ** (1.0 / m))))
        B = np.eye(m) + np.tril(0.9 * g.random((m, m)) - 0.45, -1)
        B = np.diag(0.8 + 0.5 * g.random(m)) @ B
        U = np.stack(np.meshgrid(*[np.arange(a)] * m, indexing="ij"), -1).reshape(-1, m) / a
        U = U + z * 0.4 * (g.random(U.shape) - 0.5) / a
        df = (U[:, None, :] - U[None, :, :])
        D = np.full((len(U), len(U)), np.inf)
        for sh in itertools.product((-2, -1, 0, 1, 2), repeat=m):
            D = np.minimum(D, np.linalg.norm((df + np.array(sh)) @ B, axis=-1))
        np.fill_diagonal(D, 0)
        D = (D + D.T) / 2
    elif k == "sphere":
        X = sphere_points(n, g, rec.get("even", True)) + 0.05 * z * g.normal(size=(n, 3))
        X = X[g.permutation(n)]
    elif k == "twospheres":
        m = n // 2
        A, B = sphere_points(m, g, True), sphere_points(n - m, g, True) * 0.8
        X = np.concatenate([A, B + [5.0, 0, 0]]) + 0.03 * z * g.normal(size=(n, 3))
        X = X[g.permutation(n)]
    elif k == "torus3":
        t, p = g.random(n) * 2 * np.pi, g.random(n) * 2 * np.pi
        X = np.stack([(2 + np.cos(t)) * np.cos(p), (2 + np.cos(t)) * np.sin(p), np.sin(t)], 1)
    elif k == "ball":
        X = g.random((n, 3))
    elif k.startswith("flag:"):
        nv, e = complex_by_name(k[5:], g, rec.get("size", 0))
        D = flag_metric(nv, e, g, 0.3 * max(z, 0.01))
        q = g.permutation(nv)
        D = D[np.ix_(q, q)]
    else:
        raise ValueError(k)
    return X, D


class Data:
    pass


FIXED_SIZE = ("explicit", "lattice", "graph", "cyclegraph", "rp2", "skewtorus")


def between(D, m, g):
    """Distances from the given points to m further ones lying between neighbours (in the sup-norm picture of the metric)."""
    n = len(D)
    P = []
    for _ in range(m):
        i = int(g.integers(0, n))
        near = np.argsort(D[i], kind="stable")[1: 1 + min(n - 1, 5)]
        q = g.choice(near, min(len(near), int(g.integers(1, 3))), replace=False)
        w = g.random(len(q) + 1)
        w /= w.sum()
        P.append(w[0] * D[i] + sum(a * D[k] for a, k in zip(w[1:], q)))
    P = np.array(P)
    return np.abs(P[:, None, :] - D[None, :, :]).max(-1).T


def build(rec):
    """The arguments of a coordinates object: X, distance_matrix flag, number of landmarks.

    n counts the landmarks; there are n/frac points in all. Spaces of a fixed number of points have frac*n landmarks,
    or (metric ones, given as a rectangular matrix) further points between the given ones."""
    frac = rec.get("frac", 1.0)
    fixed = rec["space"] in FIXED_SIZE or rec["space"].startswith("flag:")
    if not fixed and frac < 1:
        rec = dict(rec, n=min(int(round(rec["n"] / frac)), rec["n"] + 120))
    X, D = space(rec)
    g = rng(rec["seed"], 12)
    if X is not None:
        if rec.get("shuffle", True) and rec["space"] not in ("explicit", "sphere", "twospheres"):
            X = X[g.permutation(len(X))]
        X = embed(X, rec.get("dim", 0), g)
        X = X * rec.get("scale", 1.0) + rec.get("shift", 0.0)
    else:
        D = D * rec.get("scale", 1.0)
    if rec.get("twins"):
        # some points occur twice
        n = len(X) if X is not None else len(D)
        g2 = rng(rec["seed"], 13)
        o = g2.permutation(np.concatenate([np.arange(n), g2.integers(0, n, rec["twins"])]))
        X, D = (X[o], None) if X is not None else (None, D[np.ix_(o, o)])
    n = len(X) if X is not None else len(D)
    pres = rec.get("pres", "points" if X is not None else "square")
    if X is None and pres == "points":
        pres = "square"
    nl = int(min(n, max(4, round(rec.get("frac", 1.0) * n))))
    d = Data()
    d.n, d.pres = n, pres
    if pres == "points":
        d.X, d.dm, d.nl = lay(X, rec.get("layout", "C")), False, nl
    else:
        M = pdist(X) if X is not None else D
        M = np.array(M)
        np.fill_diagonal(M, 0)
        M = (M + M.T) / 2
        if pres == "rect" and nl < n:
            if X is None:
                # all the given points are landmarks
                m = min(100, int(round(n / rec.get("frac", 1.0))) - n)
                M, nl = np.concatenate([M, between(M, m, g)], 1), n
                d.n = n + m
            else:
                # any subsample may serve as rows; a farthest-point one covers best
                rows = min(n - 1, nl + rec.get("rows", 0))
                perm = maxmin(M, rows)
                if rows > nl:
                    # the landmarks are then chosen among the rows
                    perm = np.concatenate([perm[:1], g.permutation(perm[1:])])
                rest = np.setdiff1d(np.arange(n), perm)
                o = np.concatenate([perm, rest])
                M = M[np.ix_(o[:rows], o)]
        else:
            d.pres = "square"
        d.X, d.dm, d.nl = lay(M, rec.get("layout", "C")), True, nl
    if rec.get("many"):
        # thousands of further points between the landmarks, as a landmarks-by-points matrix
        M = pdist(X) if X is not None else np.array(D, dtype=float)
        M = (M + M.T) / 2
        o = maxmin(M, nl)
        DLL = M[np.ix_(o, o)]
        np.fill_diagonal(DLL, 0)
        d.X, d.dm, d.nl, d.pres = lay(np.concatenate([DLL, between(DLL, rec["many"], g)], 1), rec.get("layout", "C")), True, nl, "rect"
        d.n = d.X.shape[1]
    dt = rec.get("dtype")
    if dt == "float32":
        d.X = d.X.astype(np.float32)
    elif dt == "int":
        d.X = np.rint(d.X).astype(np.int64)
    return d


def maxmin(D, m):
    perm = [0]
    ds = D[0].copy()
    while len(perm) < m:
        i = int(np.argmax(np.where(np.isin(np.arange(len(D)), perm), -1, ds)))
        perm.append(i)
        ds = np.minimum(ds, D[i])
    return np.array(perm)


def many(rec, top=8000):
    """A strategy for data sets of thousands of points (few of them landmarks)."""
    return st.tuples(rec, st.integers(1000, top)).map(lambda t: dict(t[0], many=t[1], frac=1.0, twins=0))


def some(n, seed=0):
    """Which of many rows to compare in pairs: all of them when there are few, otherwise a spread that includes the last ones."""
    if n <= 1500:
        return np.arange(n)
    g = rng(seed, 14)
    return np.unique(np.concatenate([np.linspace(0, n - 1, 300).astype(int), g.integers(0, n, 300), np.arange(n - 60, n)]))


def recipe(spaces, n=(6, 40), pres=None, frac=True, extra=None):
    d = {
        "space": st.sampled_from(spaces), "n": st.integers(*n), "seed": SEED, "noise": st.sampled_from([0.1, 0.3, 0.6, 0.0]),
        "pres": st.sampled_from(pres or ("points", "points", "square", "rect", "rect")), "frac": st.sampled_from([1.0, 0.7, 0.5, 0.35, 0.25]) if frac else st.just(1.0),
        "dim": st.sampled_from([2, 2, 3, 5]), "scale": st.sampled_from([1.0, 1.0, 1.0, 0.01, 100.0]), "layout": st.sampled_from(["C", "C", "C", "F", "strided"]),
        "twins": st.sampled_from([0, 0, 0, 0, 0, 1, 3]), "size": st.integers(0, 30), "rows": st.sampled_from([0, 0, 0, 2, 5, 12]), "pts": st.lists(st.tuples(st.integers(0, 9), st.integers(0, 9)).map(list), min_size=4, max_size=14),
    }
    d.update(extra or {})
    return st.fixed_dictionaries(d)
