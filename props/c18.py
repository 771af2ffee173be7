"""C18: geodesic landmark distances."""
import heapq
import numpy as np
from hypothesis import strategies as st
from lib.core import Test
from lib.strat import SEED, rng, mix, lay, layouts, sizes
from dreimac import GeometryUtils as G, CircularCoords, ToroidalCoords, ProjectiveCoords, LensCoords, ComplexProjectiveCoords

RULE = (
    "point clouds of 2 to 45 points (random, noisy circle, spiral, repeated points, several distant clusters so that the neighbour graph is "
    "disconnected), any number of landmarks and of neighbours (each point counts as its own first neighbour, as in the code); compared with "
    "an independent Floyd-Warshall on the symmetrised neighbour graph; clouds in which the k-th neighbour is ambiguous are left out. "
    "Non-trivial: at least 3 landmarks and some landmark distance that is not the Euclidean one (or infinite)."
)
ASSUMPTIONS = ["n_neighbors counts the point itself, as scipy's KDTree query does"]


def cloud(case):
    g = rng(case["seed"])
    n, d = case["n"], case["d"]
    k = case["kind"]
    if k == "normal":
        X = g.normal(size=(n, d))
    elif k == "circle":
        t = np.sort(g.random(n)) * 2 * np.pi
        X = np.zeros((n, max(d, 2)))
        X[:, 0], X[:, 1] = np.cos(t), np.sin(t)
        X += g.normal(size=X.shape) * 0.03
        X = X[g.permutation(n)]
    elif k == "spiral":
        t = np.linspace(1, 4, n) * np.pi + g.random(n) * 0.05
        X = np.stack([t * np.cos(t), t * np.sin(t)], 1)
        X = X[g.permutation(n)]
    elif k == "clusters":
        X = g.normal(size=(n, d)) + 50.0 * g.integers(0, 3, size=n)[:, None]
    elif k == "nearly grid":
        # neighbours at nearly, but not quite, the same distance
        a = max(2, int(np.ceil(n ** (1 / d))))
        X = np.stack(np.meshgrid(*[np.arange(a)] * d, indexing="ij"), -1).reshape(-1, d)[:n] + 1e-3 * g.random((n, d))
        X = X[g.permutation(n)]
    elif k == "repeats":
        # some points occur several times
        X = g.normal(size=(n, d))
        for i in g.choice(n, int(g.integers(1, 1 + n // 2)), replace=False):
            X[i] = X[int(g.integers(0, n))]
    else:
        X = g.normal(size=(n, d)) * 1e-3 + 7
    # the same cloud in another unit (a power of two)
    return lay(X * 2.0 ** case.get("unit", 0), case["layout"])


def strategy():
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["normal", "circle", "spiral", "clusters", "small", "repeats", "nearly grid"]),
        "n": sizes(sizes(mix(st.integers(2, 10), st.integers(8, 45)), 400, 25), 2800, 80), "d": st.integers(1, 4), "m": sizes(st.integers(1, 45), 300, 20),
        "k": mix(st.integers(2, 6), st.integers(2, 6), st.integers(1, 45), sizes(st.integers(1, 45), 300, 1)), "seed": SEED, "layout": layouts(),
        "unit": st.sampled_from([0, 0, 0, 0, 13, 40, -13, -40]),
    })


class Rows:
    """Shortest paths of a sparse graph from the vertices that are asked for."""

    def __init__(self, A):
        self.n = len(A)
        self.nb = [[(int(j), float(A[i, j])) for j in np.nonzero(np.isfinite(A[i]) & (np.arange(self.n) != i))[0]] for i in range(self.n)]
        self.memo = {}

    def __getitem__(self, i):
        if np.ndim(i):
            return np.array([self[int(j)] for j in i])
        if i not in self.memo:
            d, heap = np.full(self.n, np.inf), [(0.0, int(i))]
            d[i] = 0
            while heap:
                a, v = heapq.heappop(heap)
                if a > d[v]:
                    continue
                for w, x in self.nb[v]:
                    if a + x < d[w]:
                        d[w] = a + x
                        heapq.heappush(heap, (a + x, w))
            self.memo[i] = d
        return self.memo[i]


def reference(ctx, X, k, unit=1.0):
    n = len(X)
    E = np.sqrt(sum(np.subtract.outer(X[:, a], X[:, a]) ** 2 for a in range(X.shape[1])))
    A = np.full((n, n), np.inf)
    for i in range(n):
        o = np.argsort(E[i], kind="stable")
        if k < n and E[i, o[k]] - E[i, o[k - 1]] < 1e-9 * unit:
            ctx.discard("ambiguous neighbours")
        for j in o[:k]:
            if j != i:
                A[i, j] = A[j, i] = E[i, j]
    np.fill_diagonal(A, 0)
    if n > 500:
        return E, Rows(A)
    S = A.copy()
    for v in range(n):
        S = np.minimum(S, S[:, [v]] + S[[v], :])
    return E, S


def check(case, ctx):
    X = cloud(case)
    n = X.shape[0]
    m = min(case["m"], n if n <= 500 else 25)
    k = min(case["k"], n if n <= 500 else 12)
    X0 = X.copy()
    unit = 2.0 ** case.get("unit", 0)
    E, S = reference(ctx, X, k, unit)
    r = ctx.call(G.landmark_geodesic_distance, X, m, k)
    ctx.require(isinstance(r, tuple) and len(r) == 2, "two results expected")
    ctx.equal(np.asarray(X), X0, "the point cloud was modified:")
    D = ctx.array(r[0], (m, n), "distance matrix")
    perm = ctx.array(r[1], (n,), "permutation", kind="int")
    ctx.require(sorted(perm.tolist()) == list(range(n)), lambda: "not a permutation: %s" % perm)
    scale = float(E.max())
    tol = 1e-9 * max(scale, 1e-3 * unit)
    want = S[perm[:m]][:, perm]
    ctx.close(D, want, tol, "geodesic distances")
    ctx.close(D[:, :m], np.asarray(D[:, :m]).T, tol, "symmetry of the leading block")
    ctx.require(np.all(np.diag(D[:, :m]) == 0), "the leading block has a non-zero diagonal")
    ctx.require(int(perm[0]) == 0, "the sample does not start at the first point")
    ds = S[0].copy()
    for i in range(1, m):
        mx = ds.max()
        ctx.require(ds[perm[i]] >= mx - tol, lambda: "landmark %d is at geodesic distance %r from the earlier ones, the maximum is %r" % (i, ds[perm[i]], mx))
        ds = np.minimum(ds, S[perm[i]])
    fin = np.isfinite(want)
    ctx.label("connected" if fin.all() else "disconnected", case["kind"])
    ctx.nontrivial(m >= 3 and (not fin.all() or np.any(np.abs(want - E[perm[:m]][:, perm]) > 1e-6 * unit)))
    ctx.note(n=n, landmarks=m, neighbours=k)


def use_strategy():
    return st.fixed_dictionaries({"n": st.integers(30, 60), "m": st.integers(12, 24), "seed": SEED, "noise": st.sampled_from([0.0, 0.05, 0.1]),
                                  "kind": st.sampled_from(["circular", "circular", "toroidal", "projective", "lens", "cp"]), "far": mix(st.just(0), st.just(0), st.integers(1, 12))})


def check_use(case, ctx):
    """The result is accepted as landmarks-by-points input and recovers the angle of a circle."""
    g = rng(case["seed"])
    n = case["n"]
    t = np.arange(n) / n * 2 * np.pi + g.random(n) * 0.5 * 2 * np.pi / n
    t = t[g.permutation(n)]
    X = np.stack([np.cos(t), np.sin(t)], 1) * (1 + case["noise"] * (g.random((n, 1)) - 0.5))
    f = case["far"]
    if f:
        # a second component, at infinite geodesic distance
        X = np.concatenate([X, g.normal(size=(f + 5, 2)) + 100])
    D, perm = ctx.call(G.landmark_geodesic_distance, X, case["m"] + (3 if f else 0), 5)
    one = perm < n
    if not np.all(np.isfinite(D[0, one])) or f and one[:case["m"] + 3].sum() < 12:
        ctx.discard("disconnected circle")
    m = case["m"] + (3 if f else 0)
    kind = case["kind"]
    ctx.label(kind, "two components" if f else "one component")
    if kind == "cp":
        # a circle has no class of degree two: the matrix must be accepted, and there is no class to ask for
        c = ctx.call(ComplexProjectiveCoords, D, m, distance_matrix=True)
        ctx.require(ctx.outcome(c.get_coordinates, standard_range=False)[0] in ("raised", "ok"), "no answer")
        return
    if kind in ("projective", "lens"):
        c = ctx.call({"projective": ProjectiveCoords, "lens": LensCoords}[kind], D, m, distance_matrix=True)
        V = ctx.array(ctx.call(c.get_coordinates, perc=0.6, standard_range=False, **{"proj_dim" if kind == "projective" else "complex_dim": 2}), (len(X), 3 if kind == "projective" else 2), "coordinates")
        V = V[~np.isnan(V).any(1)]
        ctx.require(len(V) >= n // 2, "most points have no coordinates")
        ctx.close((np.abs(V) ** 2).sum(1), np.ones(len(V)), 1e-9, "squared norms of the coordinates")
        ctx.nontrivial()
        return
    c = ctx.call({"circular": CircularCoords, "toroidal": ToroidalCoords}[kind], D, m, distance_matrix=True)
    th = ctx.call(c.get_coordinates, perc=0.6, standard_range=False)
    th = th[0] if kind == "toroidal" else th
    th = ctx.array(th, (len(X),), "circular coordinates", kind="real")[one]
    if not np.all(np.isfinite(th)):
        ctx.require(f > 0, "undefined circular coordinates")
        ctx.discard("uncovered points of the circle")
    ref = t[perm[one]]
    best = min(spread(th - ref), spread(th + ref))
    # at this density any circle-valued map of degree one built from a cover of small balls follows the angle closely
    ctx.require(best < 1.2, lambda: "the coordinates do not follow the circle (deviation %.2f)" % best)
    ctx.nontrivial()
    ctx.note(deviation=round(float(best), 3))


def spread(d):
    c = np.angle(np.mean(np.exp(1j * d)))
    return float(np.max(np.abs(np.angle(np.exp(1j * (d - c))))))


TESTS = [
    Test("paths", strategy, check, quick=2400, thorough=60000),
    Test("usable", use_strategy, check_use, quick=60, thorough=2000),
]
