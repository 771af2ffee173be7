"""C22: rotations and stereographic charts."""
import numpy as np
from hypothesis import strategies as st
from lib.core import Test
from lib.strat import SEED, rng, mix, lay, layouts, grid, fl, sizes
from dreimac import ProjectiveMapUtils as P

RULE = (
    "vectors in dimension 2-9 (and up to 60): random, small integer vectors, equal, opposite, nearly equal/opposite (down to 1e-14), orthogonal, of any "
    "length; row/column shaped first argument; unit-vector clouds in dimension 2-6 with repeated, opposite and equatorial points for the chart; "
    "points inside, on and outside the circle (float and integer). Non-trivial: dimension >= 3 (rotation), at least 3 points off the equator (chart), a non-zero point (pole)."
)
ASSUMPTIONS = ["vectors are non-zero and of moderate length; chart inputs are unit vectors"]


def rot_strategy():
    return st.fixed_dictionaries({
        "d": mix(st.integers(2, 5), st.integers(2, 9), st.sampled_from([20, 60])), "seed": SEED,
        "rel": st.sampled_from(["random", "random", "integer", "equal", "opposite", "near", "nearopposite", "orthogonal", "axis", "negaxis"]),
        "eps": st.integers(1, 15), "la": st.sampled_from([1.0, 1.0, 1e-3, 7.0, 1e4]), "lb": st.sampled_from([1.0, 1.0, 1e-3, 7.0, 1e4]),
        "north": st.booleans(), "baxis": st.sampled_from([0, 0, 0, 1, -1]), "shape": st.sampled_from(["flat", "flat", "row", "column"]), "int": st.booleans(),
    })


def check_rot(case, ctx):
    g = rng(case["seed"])
    d = case["d"]
    rel = case["rel"]
    b = np.zeros(d)
    b[-1] = 1
    if not case["north"]:
        b = g.normal(size=d)
        if rel == "integer":
            b = g.integers(-3, 4, size=d).astype(float)
            b[int(g.integers(0, d))] = 1.0
        if case.get("baxis"):
            b = np.zeros(d)
            b[int(g.integers(0, d))] = float(case["baxis"])
        b = b * case["lb"]
    bu = b / np.linalg.norm(b)
    w = g.normal(size=d)
    w -= (w @ bu) * bu
    w /= np.linalg.norm(w)
    if rel == "random":
        a = g.normal(size=d)
    elif rel == "integer":
        a = g.integers(-3, 4, size=d).astype(float)
        a[int(g.integers(0, d))] = -2.0
    elif rel == "equal":
        a = bu.copy()
    elif rel == "opposite":
        a = -bu
    elif rel == "near":
        a = bu + 10.0 ** -case["eps"] * w
    elif rel == "nearopposite":
        a = -bu + 10.0 ** -case["eps"] * w
    elif rel == "orthogonal":
        a = w
    else:
        a = np.zeros(d)
        a[int(g.integers(0, d))] = 1.0 if rel == "axis" else -1.0
    if not (rel == "integer" and case["int"]):
        a = a * case["la"]
    elif case["int"]:
        a = a.astype(np.int64)
        if not case["north"] and np.all(b == np.rint(b)):
            b = np.rint(b).astype(np.int64)
    if np.linalg.norm(a) == 0:
        ctx.discard("zero vector")
    ain = a[None, :] if case["shape"] == "row" else a[:, None] if case["shape"] == "column" else a
    a0, b0 = ain.copy(), b.copy()
    R = ctx.call(P.rotmat, ain) if case["north"] else ctx.call(P.rotmat, ain, b)
    R = ctx.array(R, (d, d), "rotation", kind="real", finite=True)
    ctx.equal(ain, a0, "first argument modified:")
    ctx.equal(b, b0, "second argument modified:")
    # nearly (anti)parallel directions determine the plane of rotation poorly
    cosine = float(a @ b) / np.linalg.norm(a) / np.linalg.norm(b)
    tol = 2e-7 if abs(cosine) > 0.999 else 1e-9
    ctx.close(R.T @ R, np.eye(d), tol, "R^T R")
    ctx.require(abs(np.linalg.det(R) - 1) < tol, lambda: "determinant %r" % np.linalg.det(R))
    au = a / np.linalg.norm(a)
    bu = b / np.linalg.norm(b)
    ctx.close(R @ au, bu, tol, "image of the first direction")
    # everything orthogonal to both is fixed
    if 0 < np.linalg.norm(au - (au @ bu) * bu) < 1e-7 and d > 2:
        ctx.label("almost parallel")
    else:
        B = np.stack([au, bu], 1)
        U, s, _ = np.linalg.svd(B, full_matrices=True)
        rank = int(np.sum(s > 1e-9))
        V = U[:, rank:]
        if rank == 2:
            ctx.close(R @ V, V, tol, "vectors orthogonal to both")
        elif au @ bu > 0:
            ctx.close(R @ V, V, tol, "vectors orthogonal to both")
        else:
            # a half turn in one plane containing the axis
            ev = np.linalg.eigvalsh((R + R.T) / 2)
            ctx.close(np.sort(ev), np.array([-1.0, -1.0] + [1.0] * (d - 2)), 1e-6, "eigenvalues of the half turn")
    ctx.nontrivial(d >= 3)
    ctx.label(rel)


def chart_strategy():
    return st.fixed_dictionaries({
        "n": sizes(st.integers(1, 30), 2500), "d": st.integers(2, 6), "seed": SEED, "kind": st.sampled_from(["random", "special", "flat", "axes"]),
        "pole": st.sampled_from(["given", "given", "axis", "default"]), "layout": layouts(),
    })


def check_chart(case, ctx):
    g = rng(case["seed"])
    n, d = case["n"], case["d"]
    if case["pole"] == "default":
        n = max(n, d + 2)
    X = g.normal(size=(n, d))
    if case["kind"] == "flat":
        X[:, int(g.integers(0, d))] *= 0.1
    if case["kind"] == "axes":
        X = np.eye(d)[g.integers(0, d, n)] * g.choice([-1.0, 1.0], n)[:, None]
        if case["pole"] == "default":
            X = np.concatenate([X, g.normal(size=(d, d))])
            n = len(X)
    X /= np.linalg.norm(X, axis=1)[:, None]
    u = g.normal(size=d)
    u /= np.linalg.norm(u)
    if case["pole"] == "axis":
        u = np.zeros(d)
        u[int(g.integers(0, d))] = float(g.choice([-1, 1]))
    if case["kind"] == "special" and n >= 4 and case["pole"] != "default":
        X[0] = u
        X[1] = -u
        X[3] = X[2]
    X = lay(X, case["layout"])
    X0, u0 = X.copy(), u.copy()
    if case["pole"] == "default":
        ev, V = np.linalg.eigh(X0.T @ X0)
        if ev[1] - ev[0] < 1e-3:
            ctx.discard("least variance is ambiguous")
        u = V[:, 0]
        S = ctx.call(P.get_stereo_proj_codim1, X)
    else:
        S = ctx.call(P.get_stereo_proj_codim1, X, u)
    S = ctx.array(S, (n, d - 1), "chart", kind="real", finite=True)
    ctx.equal(np.asarray(X), X0, "the points were modified:")
    if case["pole"] != "default":
        ctx.equal(u, u0, "the pole was modified:")
    r2 = (S**2).sum(1)
    ctx.require(np.all(r2 <= 1 + 1e-9), "image outside the closed unit ball")
    h = np.abs(X0 @ u)
    ctx.close(r2, (1 - h) / (1 + h), 1e-9, "squared radius of the image")
    # the line is determined: lift the images and compare inner products
    L = np.concatenate([2 * S, (1 - r2)[:, None]], 1) / (1 + r2)[:, None]
    ctx.close(np.abs(L @ L.T), np.abs(X0 @ X0.T), 1e-9, "inner products recovered from the chart")
    # signs of the representatives do not matter
    fl_ = np.where(g.random(n) < 0.5, -1.0, 1.0)
    Y = X0 * fl_[:, None]
    S2 = ctx.call(P.get_stereo_proj_codim1, Y) if case["pole"] == "default" else ctx.call(P.get_stereo_proj_codim1, Y, u)
    S2 = ctx.array(S2, (n, d - 1), "chart", finite=True)
    off = h > 1e-6
    if case["pole"] == "default":
        ctx.close(S2[off] @ S2[off].T, S[off] @ S[off].T, 1e-9, "representatives with other signs")
    else:
        ctx.close(S2[off], S[off], 1e-9, "representatives with other signs")
    # the sign of the pole does not change distances in the chart
    if case["pole"] != "default":
        S3 = ctx.array(ctx.call(P.get_stereo_proj_codim1, X0, -u), (n, d - 1), "chart", finite=True)
        ctx.close(np.sqrt((S3**2).sum(1)), np.sqrt(r2), 1e-6, "radius with the opposite pole")
    ctx.nontrivial(int(off.sum()) >= 3)
    ctx.label(case["pole"], case["kind"])


def pole_strategy():
    return st.fixed_dictionaries({
        "x": mix(st.tuples(fl(-1, 1), fl(-1, 1)), st.tuples(fl(-50, 50), fl(-50, 50)), st.tuples(grid(-2, 2, 2), grid(-2, 2, 2))).map(list),
        "kind": st.sampled_from(["free", "circle", "barely", "int"]), "angle": st.integers(0, 720),
    })


def check_pole(case, ctx):
    x = np.array(case["x"])
    if case["kind"] == "circle":
        t = case["angle"] * np.pi / 360
        x = np.array([np.cos(t), np.sin(t)])
    elif case["kind"] == "barely":
        t = case["angle"] * np.pi / 360
        x = np.array([np.cos(t), np.sin(t)]) * (1 + 3e-16)
    elif case["kind"] == "int":
        x = np.rint(x).astype(np.int64)
    x0 = x.copy()
    r = ctx.call(P.circle_to_3dnorthpole, x)
    ctx.require(isinstance(r, tuple) and len(r) == 2, "two results expected")
    y = ctx.array(r[0], (2,), "selected point", kind="real", finite=True).astype(float)
    u = ctx.array(r[1], (3,), "pole", kind="real", finite=True)
    ctx.equal(x, x0, "the argument was modified:")
    m = float(np.hypot(float(x0[0]), float(x0[1])))
    want = x0.astype(float) / max(m, 1.0)
    ctx.close(y, want, 1e-9, "selected point")
    ctx.close(u[:2], want, 1e-9, "pole above the point")
    ctx.require(u[2] >= 0 and abs(np.linalg.norm(u) - 1) < 1e-7, lambda: "pole %s is not a unit vector of the upper hemisphere" % u)
    ctx.nontrivial(m > 0)
    ctx.label("outside" if m > 1 else "inside")


TESTS = [
    Test("rotmat", rot_strategy, check_rot, quick=6000, thorough=200000),
    Test("chart", chart_strategy, check_chart, quick=4000, thorough=100000),
    Test("pole", pole_strategy, check_pole, quick=3000, thorough=60000),
]
