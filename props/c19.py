"""C19: distance functions."""
import numpy as np
from hypothesis import strategies as st
from lib.core import Test
from lib.strat import SEED, rng, mix, lay, layouts, grid, sizes
from dreimac import GeometryUtils as G

RULE = (
    "pairs of point clouds (0/1/many points, dimension 1-8, explicit lattice points or random, repeated and nearly equal points, far from the origin, "
    "scales 1e-6..1e6, float64/float32/integer, any memory layout); squared distances are compared with a direct computation within a rounding bound. "
    "Unit-vector clouds with equal, opposite, orthogonal and random members for the projective arc length. Non-trivial: both clouds have at least 2 points."
)
ASSUMPTIONS = ["entries of moderate size (no overflow of squares)"]


def cloud(g, n, d, kind, scale):
    if kind == "normal":
        X = g.normal(size=(n, d))
    elif kind == "lattice":
        X = g.integers(-3, 4, size=(n, d)).astype(float)
    elif kind == "offset":
        X = g.normal(size=(n, d)) + 100.0
    elif kind == "close":
        X = np.ones((n, d)) + g.normal(size=(n, d)) * 1e-8
    else:
        X = np.repeat(g.normal(size=(1, d)), n, axis=0)
    return X * scale


def strategy():
    return st.fixed_dictionaries({
        "n": sizes(sizes(mix(st.integers(1, 6), st.integers(1, 30)), 1200), 9000, 60), "m": sizes(mix(st.integers(1, 6), st.integers(1, 30)), 600), "d": sizes(st.integers(1, 8), 200),
        "kx": st.sampled_from(["normal", "lattice", "offset", "close", "equal"]), "ky": st.sampled_from(["normal", "lattice", "offset", "close", "same", "same"]),
        "scale": st.sampled_from([1.0, 1.0, 1e-6, 1e-3, 1e3, 1e6]), "dtype": st.sampled_from(["float64", "float64", "float32", "int64", "int32", "uint8", "int8", "int16"]),
        "seed": SEED, "lx": layouts(), "ly": layouts(),
    })


def check(case, ctx):
    g = rng(case["seed"])
    if case["n"] > 1500:
        case = dict(case, m=min(case["m"], 20), d=min(case["d"], 8))
    X = cloud(g, case["n"], case["d"], case["kx"], case["scale"])
    Y = X[g.integers(0, len(X), case["m"])] if case["ky"] == "same" else cloud(g, case["m"], case["d"], case["ky"], case["scale"])
    dt = case["dtype"]
    if "int" in dt:
        lim = np.iinfo(dt)
        # small values, or (8 bit) values over the whole range of the type
        f = 40.0 if dt in ("uint8", "int8") else 1.0
        X, Y = (np.clip(np.rint(A * f), max(lim.min, -2.0**40), min(lim.max, 2.0**40)) for A in (X, Y))
    X, Y = lay(X.astype(dt), case["lx"]), lay(Y.astype(dt), case["ly"])
    X0, Y0 = X.copy(), Y.copy()
    eps = float(np.finfo(np.float32 if dt == "float32" else np.float64).eps)
    for A, B, fn, args in ((X, Y, G.get_csm, (X, Y)), (Y, X, G.get_csm, (Y, X)), (X, X, G.get_ssm, (X,))):
        if fn is G.get_ssm and len(X) > 1500:
            # (the thousands of rows were the other function's business)
            continue
        D = ctx.array(ctx.call(fn, *args), (len(A), len(B)), fn.__name__, kind="real", finite=True).astype(float)
        ctx.require(np.all(D >= 0), "negative distances")
        Af, Bf = A.astype(float), B.astype(float)
        sq = ((Af[:, None, :] - Bf[None, :, :]) ** 2).sum(-1)
        mag = (Af**2).sum(1)[:, None] + (Bf**2).sum(1)[None, :]
        bound = 8 * (case["d"] + 4) * eps * mag + 4 * eps * sq
        bad = np.abs(D**2 - sq) > bound + 1e-300
        if np.any(bad):
            i, j = np.argwhere(bad)[0]
            ctx.fail("%s: distance of rows %d, %d is %r, expected %r" % (fn.__name__, i, j, D[i, j], np.sqrt(sq[i, j])))
        if fn is G.get_ssm:
            ctx.require(np.all(np.abs(D**2 - D.T**2) <= 2 * bound + 1e-300), "self-distances are not symmetric")
    ctx.equal(np.asarray(X), X0, "first argument modified:")
    ctx.equal(np.asarray(Y), Y0, "second argument modified:")
    ctx.nontrivial(case["n"] >= 2 and case["m"] >= 2)
    ctx.label(case["kx"] + "/" + case["ky"], dt)


def arc_strategy():
    return st.fixed_dictionaries({
        "n": sizes(sizes(mix(st.integers(1, 8), st.integers(1, 25)), 600), 9000, 60), "m": st.integers(1, 12), "d": st.integers(2, 6), "seed": SEED,
        "kind": st.sampled_from(["random", "axes", "special"]), "lx": layouts(),
    })


def sphere(g, n, d, kind):
    if kind == "axes":
        X = np.zeros((n, d))
        for i in range(n):
            X[i, int(g.integers(0, d))] = 1.0 if g.random() < 0.5 else -1.0
        return X
    X = g.normal(size=(n, d))
    X /= np.linalg.norm(X, axis=1)[:, None]
    return X


def check_arc(case, ctx):
    g = rng(case["seed"])
    d = case["d"]
    X = sphere(g, case["n"], d, case["kind"])
    Y = sphere(g, case["m"], d, case["kind"])
    if case["kind"] == "special":
        Y = np.concatenate([X[-40:], -X[-40:], X[:40], -X[:40], Y]) if len(X) > 600 else np.concatenate([X, -X, Y])
    X = lay(X, case["lx"])
    X0, Y0 = X.copy(), Y.copy()
    D = ctx.array(ctx.call(G.get_csm_projarc, X, Y), (len(X), len(Y)), "projective arc length", kind="real", finite=True)
    ctx.require(np.all(D >= 0) and np.all(D <= np.pi / 2 + 1e-12), "outside [0, pi/2]")
    ctx.equal(np.asarray(X), X0, "first argument modified:")
    ctx.equal(np.asarray(Y), Y0, "second argument modified:")
    # an accurate angle between lines
    ip = np.einsum("id,jd->ij", X0, Y0)
    cr = np.sqrt(np.maximum(((X0[:, None, :] - ip[:, :, None] * Y0[None]) ** 2).sum(-1), 0))
    ang = np.arctan2(cr, np.abs(ip))
    ctx.close(D, ang, 1e-7, "projective arc length")
    flip = np.where(g.random(len(Y)) < 0.5, -1.0, 1.0)
    ctx.close(ctx.call(G.get_csm_projarc, -X0, Y0 * flip[:, None]), D, 1e-7, "changing signs")
    ctx.close(ctx.call(G.get_csm_projarc, Y0, X0), np.asarray(D).T, 1e-7, "swapping arguments")
    Z = sphere(g, 3, d, "random")
    DYZ = ctx.call(G.get_csm_projarc, Y0, Z)
    DXZ = ctx.call(G.get_csm_projarc, X0, Z)
    ctx.require(np.all(DXZ[:, None, :] <= D[:, :, None] + DYZ[None] + 1e-7), "triangle inequality fails")
    ctx.nontrivial(case["n"] >= 2)
    ctx.label(case["kind"])


TESTS = [
    Test("euclidean", strategy, check, quick=5000, thorough=200000),
    Test("projective", arc_strategy, check_arc, quick=2500, thorough=80000),
]
