"""C15: coboundary matrices of the Rips complex."""
from math import comb
from itertools import combinations
import numpy as np
from hypothesis import strategies as st
from lib.core import Test
from lib.strat import SEED, rng, grid, mix, lay, layouts
from dreimac.combinatorial import combinatorial_number_system_table
from dreimac.utils import CohomologyUtils as U

RULE = (
    "symmetric dissimilarity matrices on n <= 9 vertices (14 in thorough; explicit entries with many ties, random entries, or point clouds; "
    "float, integer or float32; any memory layout; sometimes infinite entries), thresholds that are often exactly an entry of the matrix; "
    "every entry of the four matrices is compared with a dictionary model. Non-trivial: at least one triangle is present and one "
    "is absent. Run compiled and interpreted."
)
ASSUMPTIONS = ["matrices are symmetric and the lookup table was made for the number of vertices and dimension >= 2 (>= 3 for delta2)"]


def build(case):
    n = case["n"]
    kind = case["kind"]
    m = n * (n - 1) // 2
    if kind == "levels":
        vals = np.array((case["levels"] * (m + 1))[:m], dtype=float)
    else:
        g = rng(case["seed"])
        if kind == "random":
            vals = g.random(m)
        elif kind == "coarse":
            vals = g.integers(1, 5, m).astype(float)
        else:
            X = g.normal(size=(n, 2))
            vals = np.array([np.linalg.norm(X[i] - X[j]) for j in range(n) for i in range(j)])
    D = np.zeros((n, n))
    k = 0
    for j in range(n):
        for i in range(j):
            D[i, j] = D[j, i] = vals[k]
            k += 1
    if case["inf"] and m:
        g = rng(case["seed"], 7)
        for _ in range(1 + m // 6):
            i, j = g.choice(n, 2, replace=False)
            D[i, j] = D[j, i] = np.inf
    t = case["thr"]
    flat = np.unique(D[np.isfinite(D)])
    if t[0] == "entry":
        thr = float(flat[t[1] % len(flat)])
    elif t[0] == "between":
        thr = float(flat[t[1] % len(flat)]) + 1e-3
    else:
        thr = float(t[1])
    if case["dtype"] == "int" and not case["inf"]:
        D = np.rint(D * 3).astype(np.int64)
        thr = float(np.rint(thr * 3))
    elif case["dtype"] == "float32":
        D = D.astype(np.float32)
        thr = float(np.float32(thr))
    elif case.get("unit"):
        # tiny or huge distances
        D, thr = D * 2.0 ** case["unit"], thr * 2.0 ** case["unit"]
    return lay(D, case["layout"]), thr


def strategy():
    return st.fixed_dictionaries({
        "n": mix(st.integers(1, 7), st.integers(5, 9)),
        "kind": st.sampled_from(["levels", "random", "coarse", "points"]),
        "levels": st.lists(st.integers(0, 4), min_size=1, max_size=36),
        "seed": SEED,
        "inf": st.sampled_from([False, False, False, True]),
        "thr": mix(st.tuples(st.just("entry"), st.integers(0, 40)), st.tuples(st.just("between"), st.integers(0, 40)),
                   st.tuples(st.just("value"), grid(-1, 6, 4))).map(list),
        "dtype": st.sampled_from(["float", "float", "int", "float32"]),
        "layout": layouts(),
        "extra_dim": st.integers(0, 2), "unit": st.sampled_from([0, 0, -40, 30]),
    })


def big_strategy():
    return st.fixed_dictionaries({
        "n": st.integers(10, 26), "kind": st.sampled_from(["random", "coarse", "points"]), "levels": st.just([1]), "seed": SEED,
        "inf": st.just(False), "thr": mix(st.tuples(st.just("entry"), st.integers(0, 400))).map(list),
        "dtype": st.just("float"), "layout": layouts(), "extra_dim": st.integers(0, 1),
    })


def num(s):
    return sum(comb(v, i + 1) for i, v in enumerate(s))


def dense(ctx, M, shape, what):
    try:
        A = np.asarray(M.toarray() if hasattr(M, "toarray") else M)
    except Exception as e:
        ctx.fail("%s is not a matrix: %r" % (what, e))
    ctx.array(A, shape, what)
    return A


def faces(s):
    k = len(s)
    return [(tuple(s[:i] + s[i + 1:]), (-1) ** i) for i in range(k)]


def up_to_sign(ctx, A, B, what):
    if np.array_equal(A, B) or np.array_equal(A, -B):
        return
    i = np.argwhere(A != B)[0]
    ctx.fail("%s: entry %s is %r, expected %r (and not the opposite matrix either)" % (what, tuple(int(x) for x in i), A[tuple(i)].item(), B[tuple(i)].item()))


def check(case, ctx):
    D, thr = build(case)
    n = D.shape[0]
    D0 = D.copy()
    E = comb(n, 2)
    F = comb(n, 3)
    T = combinatorial_number_system_table(n, 3 + case["extra_dim"])
    Dm = np.array(D)
    adj = Dm < thr
    edges = [e for e in combinations(range(n), 2) if adj[e]]
    inE = set(edges)
    tris = [t for t in combinations(range(n), 3) if all(p in inE for p in combinations(t, 2))]
    tets = [t for t in combinations(range(n), 4) if all(p in inE for p in combinations(t, 2))]
    ctx.nontrivial(0 < len(tris) < F)
    ctx.label("tetrahedra" if tets else "no tetrahedra", "threshold is an entry" if np.any(Dm == thr) else "threshold between entries")
    ctx.note(n=n, edges=len(edges), triangles=len(tris), tetrahedra=len(tets))

    d0 = dense(ctx, ctx.call(U.make_delta0, D, thr, T), (E, n), "delta0")
    d1 = dense(ctx, ctx.call(U.make_delta1, D, thr, T), (F, E), "delta1")
    d1c = dense(ctx, ctx.call(U.make_delta1_compact, D, thr, T), (len(tris), E), "compact delta1")
    d2c = dense(ctx, ctx.call(U.make_delta2_compact, D, thr, T), (len(tets), F), "compact delta2")
    ctx.require(np.array_equal(np.array(D), D0), "the distance matrix was modified")

    r0 = np.zeros((E, n))
    for e in edges:
        for f, s in faces(e):
            r0[num(e), f[0]] = s
    up_to_sign(ctx, d0, r0, "delta0")
    r1 = np.zeros((F, E))
    for t in tris:
        for f, s in faces(t):
            r1[num(t), num(f)] = s
    up_to_sign(ctx, d1, r1, "delta1")
    want = np.array([r1[num(t)] for t in tris]).reshape(len(tris), E)
    same_rows(ctx, d1c, want, "compact delta1")
    w2 = np.zeros((len(tets), F))
    for k, t in enumerate(tets):
        for f, s in faces(t):
            w2[k, num(f)] = s
    same_rows(ctx, d2c, w2, "compact delta2")
    ctx.require(not np.any(d1 @ d0), "delta1 delta0 is not zero")
    ctx.require(not np.any(d1c @ d0), "compact delta1 delta0 is not zero")
    ctx.require(not np.any(d2c @ d1), "delta2 delta1 is not zero")


def same_rows(ctx, A, B, what):
    """The same rows in any order, up to one global sign."""
    def canon(M):
        return sorted(tuple(r) for r in M.tolist())
    if canon(A) == canon(B) or canon(-A + 0.0) == canon(B + 0.0):
        return
    ctx.fail("%s does not consist of the coboundary rows of the simplices present" % what)


# larger complexes, so that the numbers of the simplices leave the range of small integer types


def huge_strategy():
    return st.fixed_dictionaries({"which": st.sampled_from(["delta0", "delta1", "compact delta1", "delta2"]), "size": st.integers(0, 100), "seed": SEED,
                                  "kind": st.sampled_from(["random", "points", "coarse"])})


def triples(M):
    C = M.tocoo()
    C.sum_duplicates()
    keep = C.data != 0
    r, c, v = C.row[keep].astype(np.int64), C.col[keep].astype(np.int64), C.data[keep]
    o = np.lexsort((c, r))
    return r[o], c[o], v[o]


def check_huge(case, ctx):
    g = rng(case["seed"])
    which = case["which"]
    lo, hi = {"delta0": (240, 420), "delta1": (56, 110), "compact delta1": (56, 110), "delta2": (30, 52)}[which]
    n = lo + case["size"] * (hi - lo) // 100
    if case["kind"] == "points":
        X = g.normal(size=(n, 3))
        D = np.linalg.norm(X[:, None] - X[None], axis=2)
    else:
        D = g.random((n, n)) if case["kind"] == "random" else g.integers(1, 12, (n, n)).astype(float)
        D = np.triu(D, 1) + np.triu(D, 1).T
    thr = float(np.quantile(D[np.triu_indices(n, 1)], {"delta0": 0.3, "delta1": 0.4, "compact delta1": 0.4, "delta2": 0.5}[which]))
    T = combinatorial_number_system_table(n, 3)
    adj = np.triu(D < thr, 1)
    c2 = lambda v: v * (v - 1) // 2
    c3 = lambda v: v * (v - 1) * (v - 2) // 6
    ctx.note(n=n)
    ctx.label(which)
    I, J = np.nonzero(adj)
    if which == "delta0":
        M = ctx.call(U.make_delta0, D, thr, T)
        shape = (comb(n, 2), n)
        row = I + c2(J)
        parts = [(row, I, 1), (row, J, -1)]
    else:
        tri = np.array([(i, j, k) for i, j in zip(I, J) for k in np.nonzero(adj[i] & adj[j])[0]], dtype=np.int64).reshape(-1, 3)
        a, b, c = tri.T
        if which == "delta1":
            M = ctx.call(U.make_delta1, D, thr, T)
            shape = (comb(n, 3), comb(n, 2))
            row = a + c2(b) + c3(c)
            parts = [(row, a + c2(b), 1), (row, b + c2(c), 1), (row, a + c2(c), -1)]
        elif which == "compact delta1":
            M = ctx.call(U.make_delta1_compact, D, thr, T)
            shape = (len(tri), comb(n, 2))
            row = np.arange(len(tri))
            parts = [(row, a + c2(b), 1), (row, b + c2(c), 1), (row, a + c2(c), -1)]
        else:
            M = ctx.call(U.make_delta2_compact, D, thr, T)
            tet = np.array([(i, j, k, l) for i, j, k in tri for l in np.nonzero(adj[i] & adj[j] & adj[k])[0]], dtype=np.int64).reshape(-1, 4)
            a, b, c, d = tet.T
            f = lambda x, y, z: x + c2(y) + c3(z)
            shape = (len(tet), comb(n, 3))
            row = np.arange(len(tet))
            parts = [(row, f(a, b, c), 1), (row, f(a, b, d), -1), (row, f(a, c, d), 1), (row, f(b, c, d), -1)]
    ctx.require(tuple(M.shape) == shape, lambda: "%s has shape %s, expected %s" % (which, tuple(M.shape), shape))
    r, c_, v = triples(M)
    R, C, V = (np.concatenate(x) for x in zip(*[(p[0], p[1], np.full(len(p[0]), p[2])) for p in parts]))
    o = np.lexsort((C, R))
    R, C, V = R[o], C[o], V[o]
    ctx.nontrivial(len(V) > 1000)
    if which in ("delta2", "compact delta1"):
        # the compact rows may come in any order
        m = 4 if which == "delta2" else 3
        def rows(r, c, v):
            o = np.argsort(r, kind="stable")
            k = len(r) // m
            return np.concatenate([c[o].reshape(k, m), v[o].reshape(k, m)], axis=1).astype(np.int64) if len(r) == m * k else None
        X, Y = rows(r, c_, v), rows(R, C, V)
        ctx.require(X is not None and len(X) == len(Y), lambda: "%s has %d entries, expected %d" % (which, len(v), len(V)))
        srt = lambda A: A[np.lexsort(A.T[::-1])]
        ok = np.array_equal(srt(X), srt(Y)) or np.array_equal(srt(X), srt(np.concatenate([Y[:, :m], -Y[:, m:]], axis=1)))
        ctx.require(ok, "%s does not consist of the coboundary rows of the simplices present" % which)
    else:
        ok = np.array_equal(r, R) and np.array_equal(c_, C)
        ctx.require(ok, lambda: "%s on %d vertices has its non-zero entries in the wrong places" % (which, n))
        ctx.require(np.array_equal(v, V) or np.array_equal(v, -V), lambda: "%s on %d vertices has wrong signs" % (which, n))


TESTS = [
    Test("model", strategy, check, quick=1400, thorough=60000, modes=("jit", "nojit"), weight=0.75),
    Test("larger", big_strategy, check, quick=60, thorough=1500, modes=("jit",)),
    Test("huge", huge_strategy, check_huge, quick=40, thorough=1000, modes=("jit",)),
]
