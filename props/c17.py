"""C17: farthest-point samplers."""
import numpy as np
from hypothesis import strategies as st
from lib.core import Test
from lib.strat import SEED, rng, mix, lay, layouts, sizes
from dreimac import GeometryUtils as G

RULE = (
    "point clouds (random, integer grids with ties and duplicates, circles, high dimension, 1 to 60 points) and symmetric matrices, any number "
    "of landmarks up to all points, Euclidean, city-block, projective or indicator cross-distances; the sample is judged by a validity predicate "
    "(each new point at maximal distance), not by one expected answer. Non-trivial: at least 3 landmarks and fewer landmarks than points or ties."
)
ASSUMPTIONS = ["the number of landmarks is between 1 and the number of points"]


def cloud(case):
    g = rng(case["seed"])
    n, d = case["n"], case["d"]
    k = case["kind"]
    if k == "normal":
        X = g.normal(size=(n, d))
    elif k == "grid":
        X = g.integers(0, 4, size=(n, d)).astype(float)
    elif k == "intgrid":
        X = g.integers(-9, 9, size=(n, d))
    elif k == "far":
        X = g.normal(size=(n, d)) + 1000.0
    elif k == "collinear":
        X = np.outer(g.normal(size=n), np.ones(d))
    else:
        X = g.normal(size=(n, d))
        X /= np.linalg.norm(X, axis=1)[:, None]
    return lay(X, case["layout"])


def strategy():
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["normal", "grid", "intgrid", "far", "collinear", "sphere"]),
        "n": sizes(mix(st.integers(1, 12), st.integers(10, 60)), 1500), "d": st.integers(1, 5), "m": st.integers(1, 60), "seed": SEED,
        "fn": st.sampled_from(["default", "csm", "projarc", "cityblock", "hamming"]), "layout": layouts(),
    })


def cityblock(X, Y):
    return np.abs(np.asarray(X)[:, None, :] - np.asarray(Y)[None, :, :]).sum(-1) * 1.0


def hamming(X, Y):
    return (np.abs(np.asarray(X)[:, None, :] - np.asarray(Y)[None, :, :]) > 0.5).sum(-1) * 1.0


def greedy_ok(ctx, rows, perm, lambdas, tol, what):
    """rows[i] = distances from the i-th landmark to all points"""
    m = len(perm)
    ctx.require(int(perm[0]) == 0, lambda: "%s does not start at the first point: %s" % (what, perm))
    ds = rows[0].astype(float)
    for i in range(1, m):
        mx = ds.max()
        got = ds[int(perm[i])]
        ctx.require(got >= mx - tol, lambda: "%s: landmark %d (point %d) is at distance %r from the earlier ones, but the maximum is %r" % (what, i, int(perm[i]), got, mx))
        ctx.require(abs(float(lambdas[i]) - mx) <= tol, lambda: "%s: insertion radius %d is %r, expected %r" % (what, i, float(lambdas[i]), mx))
        ds = np.minimum(ds, rows[i])
    for i in range(2, m):
        ctx.require(float(lambdas[i]) <= float(lambdas[i - 1]) + tol, lambda: "%s: insertion radii increase: %s" % (what, lambdas))


def check(case, ctx):
    X = cloud(case)
    n = X.shape[0]
    m = min(case["m"], n)
    X0 = X.copy()
    fname = case["fn"]
    if fname == "projarc" and case["kind"] != "sphere":
        fname = "csm"
    fn = {"default": None, "csm": G.get_csm, "projarc": G.get_csm_projarc, "cityblock": cityblock, "hamming": hamming}[fname]
    # the full matrix, by an independent computation
    Xf = np.asarray(X, dtype=float)
    scale = max(1.0, float(np.abs(Xf).max()))
    if fname in ("default", "csm"):
        full = np.sqrt(((Xf[:, None, :] - Xf[None, :, :]) ** 2).sum(-1))
        tol = 1e-6 * scale
    elif fname == "projarc":
        full = np.arccos(np.clip(np.abs(Xf @ Xf.T), 0, 1))
        tol = 1e-6
    else:
        full = fn(X, X)
        tol = 0.0 if case["kind"] in ("grid", "intgrid") or fname == "hamming" else 1e-9 * scale
    args = (X, m) if fn is None else (X, m, fn)
    r = ctx.call(G.get_greedy_perm_pc, *args)
    ctx.require(isinstance(r, dict) and {"Y", "perm", "lambdas", "D"} <= set(r), "result lacks some of Y, perm, lambdas, D")
    perm = ctx.array(r["perm"], (m,), "perm", kind="int")
    ctx.require(np.all((perm >= 0) & (perm < n)), "indices out of range")
    lam = ctx.array(r["lambdas"], (m,), "lambdas", finite=True)
    D = ctx.array(r["D"], (m, n), "D", finite=True)
    Y = ctx.array(r["Y"], (m, X.shape[1]), "Y")
    ctx.equal(Y, X0[perm], "landmarks Y")
    ctx.equal(np.asarray(X), X0, "the point cloud was modified:")
    ctx.close(D, full[perm], max(tol, 1e-12), "distances D")
    greedy_ok(ctx, full[perm], perm, lam, 2 * tol, "point-cloud sampler")
    ctx.nontrivial(m >= 3 and (m < n or case["kind"] in ("grid", "intgrid")))
    ctx.label(fname, case["kind"])

    # the matrix sampler
    M = lay(full, case["layout"])
    if case["kind"] == "intgrid" and fname in ("cityblock", "hamming"):
        M = M.astype(np.int64)
    M0 = M.copy()
    s = ctx.call(G.get_greedy_perm_dm, M, m)
    ctx.require(isinstance(s, dict) and {"perm", "lambdas", "DLandmarks"} <= set(s), "result lacks some of perm, lambdas, DLandmarks")
    p2 = ctx.array(s["perm"], (m,), "perm", kind="int")
    ctx.require(np.all((p2 >= 0) & (p2 < n)), "indices out of range")
    l2 = ctx.array(s["lambdas"], (m,), "lambdas", finite=True)
    D2 = ctx.array(s["DLandmarks"], (m, n), "DLandmarks", finite=True)
    ctx.equal(np.asarray(M), M0, "the distance matrix was modified:")
    ctx.equal(np.asarray(D2, dtype=float), np.asarray(M0, dtype=float)[p2], "DLandmarks")
    greedy_ok(ctx, full[p2], p2, l2, 0.0, "matrix sampler")

    # agreement where there are no ties
    ds = full[p2[0]].copy()
    ties = False
    for i in range(1, m):
        srt = np.sort(ds)
        if n > 1 and srt[-1] - srt[-2] <= 10 * tol + 1e-9 * scale:
            ties = True
            break
        ds = np.minimum(ds, full[p2[i]])
    if not ties:
        ctx.equal(perm, p2, "the two samplers on the same distances: indices")
        ctx.close(lam, l2, max(2 * tol, 1e-12), "the two samplers on the same distances: radii")
        ctx.label("no ties")
    else:
        ctx.label("ties")


def dm_strategy():
    return st.fixed_dictionaries({
        "n": st.integers(1, 9), "m": st.integers(1, 9), "vals": st.lists(st.integers(0, 6), min_size=1, max_size=36),
        "layout": layouts(), "dtype": st.sampled_from(["float", "int"]),
    })


def check_dm(case, ctx):
    """Any symmetric matrix, metric or not."""
    n = case["n"]
    m = min(case["m"], n)
    D = np.zeros((n, n))
    k = 0
    v = case["vals"]
    for j in range(n):
        for i in range(j):
            D[i, j] = D[j, i] = v[k % len(v)]
            k += 1
    M = lay(D.astype(np.int64) if case["dtype"] == "int" else D, case["layout"])
    s = ctx.call(G.get_greedy_perm_dm, M, m)
    p2 = ctx.array(s["perm"], (m,), "perm", kind="int")
    ctx.require(np.all((p2 >= 0) & (p2 < n)), "indices out of range")
    l2 = ctx.array(s["lambdas"], (m,), "lambdas", finite=True)
    ctx.equal(np.asarray(M, dtype=float), D, "the distance matrix was modified:")
    ctx.equal(np.asarray(s["DLandmarks"], dtype=float), D[p2], "DLandmarks")
    greedy_ok(ctx, D[p2], p2, l2, 0.0, "matrix sampler")
    ctx.nontrivial(m >= 3)


def many_strategy():
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["normal", "far", "collinear", "sphere", "intgrid"]), "n": st.integers(1200, 9000), "d": st.integers(1, 3),
        "m": mix(st.integers(2, 12), st.integers(2, 12), st.integers(60, 150)), "seed": SEED, "layout": layouts(), "matrix": st.booleans(),
    })


def check_many(case, ctx):
    """Thousands of points, or more than a hundred landmarks."""
    if case["matrix"]:
        case = dict(case, n=300 + case["n"] // 4, m=case["m"] * 3)
    X = cloud(case)
    Xf = np.asarray(X, dtype=float)
    n, m = len(X), min(case["m"], len(X))
    scale = max(1.0, float(np.abs(Xf).max()))
    rows = lambda perm: np.sqrt(sum((Xf[perm, a][:, None] - Xf[:, a][None]) ** 2 for a in range(X.shape[1])))
    tol = 1e-6 * scale
    r = ctx.call(G.get_greedy_perm_pc, X, m)
    perm = ctx.array(r["perm"], (m,), "perm", kind="int")
    ctx.require(np.all((perm >= 0) & (perm < n)), "indices out of range")
    lam = ctx.array(r["lambdas"], (m,), "lambdas", finite=True)
    ctx.equal(ctx.array(r["Y"], (m, X.shape[1]), "Y"), np.asarray(X)[perm], "landmarks Y")
    full = rows(perm)
    ctx.close(ctx.array(r["D"], (m, n), "D", finite=True), full, tol, "distances D")
    greedy_ok(ctx, full, perm, lam, 2 * tol, "point-cloud sampler")
    ctx.nontrivial()
    ctx.label(case["kind"], "matrix too" if case["matrix"] else "points only")
    if case["matrix"]:
        D = rows(np.arange(n))
        s = ctx.call(G.get_greedy_perm_dm, lay(D, case["layout"]), m)
        p2 = ctx.array(s["perm"], (m,), "perm", kind="int")
        ctx.require(np.all((p2 >= 0) & (p2 < n)), "indices out of range")
        l2 = ctx.array(s["lambdas"], (m,), "lambdas", finite=True)
        ctx.equal(ctx.array(s["DLandmarks"], (m, n), "DLandmarks"), D[p2], "DLandmarks")
        greedy_ok(ctx, D[p2], p2, l2, 0.0, "matrix sampler")


TESTS = [
    Test("samplers", strategy, check, quick=5000, thorough=150000),
    Test("matrix", dm_strategy, check_dm, quick=4000, thorough=60000),
    Test("many", many_strategy, check_many, quick=70, thorough=2000),
]
