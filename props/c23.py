"""C23: Hopf map and two-disk chart."""
import numpy as np
from hypothesis import strategies as st
from lib.core import Test
from lib.strat import SEED, rng, mix, lay, layouts, sizes
from lib.data import some
from dreimac import ProjectiveMapUtils as P

RULE = (
    "unit vectors of C^2 (random, real, purely imaginary, with a zero coordinate, repeated up to a phase) and unit vectors of R^3 (random, poles, equator, "
    "near the equator), with the default or an arbitrary non-zero centre; 1 to 60 points. Non-trivial: at least 3 different lines / points in both hemispheres."
)
ASSUMPTIONS = ["inputs are unit vectors"]


def hopf_strategy():
    return st.fixed_dictionaries({"n": sizes(sizes(st.integers(1, 40), 1500), 9000, 60), "seed": SEED, "kind": st.sampled_from(["random", "axes", "real", "phases", "nearly real", "nearly equal"]), "layout": layouts()})


def c2(case):
    g = rng(case["seed"])
    n = case["n"]
    X = g.normal(size=(n, 2)) + 1j * g.normal(size=(n, 2))
    if case["kind"] == "axes":
        X = g.choice([0, 1, -1, 1j, -1j, 1 + 1j], size=(n, 2)) + 0j
        z = np.abs(X).sum(1) == 0
        X[z, 0] = 1
    elif case["kind"] == "real":
        X = g.normal(size=(n, 2)) + 0j
    elif case["kind"] == "nearly real":
        X = np.real(X) + 1j * 10.0 ** -g.integers(2, 9) * np.imag(X)
    elif case["kind"] == "nearly equal":
        X = X[:1] + 10.0 ** -g.integers(2, 9) * X
    elif case["kind"] == "phases":
        X = X[:1] * np.exp(2j * np.pi * g.random(n))[:, None]
    X /= np.linalg.norm(X, axis=1)[:, None]
    return lay(X, case["layout"])


def check_hopf(case, ctx):
    X = c2(case)
    n = len(X)
    X0 = X.copy()
    Y = ctx.array(ctx.call(P.hopf_map, X), (n, 3), "hopf_map", kind="real", finite=True)
    ctx.equal(np.asarray(X), X0, "the argument was modified:")
    ctx.close((Y**2).sum(1), np.ones(n), 1e-9, "squared norm of the image")
    sub = some(n)
    ctx.close((1 + Y[sub] @ Y[sub].T) / 2, np.abs(X0[sub] @ X0[sub].conj().T) ** 2, 1e-9, "inner products")
    g = rng(case["seed"], 1)
    ph = np.exp(2j * np.pi * g.random(n))[:, None]
    ctx.close(ctx.call(P.hopf_map, X0 * ph), Y, 1e-9, "changing representatives by unit scalars")
    # against a fixed frame too, so that different calls fit together
    F = np.array([[1, 0], [0, 1], [1, 1], [1, 1j]]) + 0j
    F /= np.linalg.norm(F, axis=1)[:, None]
    Z = ctx.array(ctx.call(P.hopf_map, F), (4, 3), "hopf_map", finite=True)
    ctx.close((1 + Z @ Y.T) / 2, np.abs(F.conj() @ X0.T) ** 2, 1e-9, "inner products with points mapped in another call")
    ctx.nontrivial(n >= 3 and case["kind"] != "phases")
    ctx.label(case["kind"])


def disk_strategy():
    return st.fixed_dictionaries({
        "n": sizes(sizes(st.integers(1, 60), 1500), 9000, 60), "seed": SEED, "kind": st.sampled_from(["random", "poles", "equator", "lower", "upper", "integer"]),
        "center": st.sampled_from(["default", "random", "axis", "negaxis", "south", "long", "near", "near"]), "layout": layouts(),
    })


def check_disk(case, ctx):
    g = rng(case["seed"])
    n = case["n"]
    X = g.normal(size=(n, 3))
    if case["kind"] in ("poles", "integer"):
        X = np.eye(3)[g.integers(0, 3, n)] * g.choice([-1.0, 1.0], n)[:, None]
    elif case["kind"] == "equator":
        X[:, 2] *= 1e-3
    elif case["kind"] == "lower":
        X[:, 2] = -np.abs(X[:, 2])
    elif case["kind"] == "upper":
        X[:, 2] = np.abs(X[:, 2])
    X /= np.linalg.norm(X, axis=1)[:, None]
    ce = case["center"]
    c = {"default": np.array([0, 0, 1.0]), "south": np.array([0, 0, -1.0]), "axis": np.array([1.0, 0, 0]), "negaxis": np.array([0, -1.0, 0])}.get(ce)
    if c is None:
        c = g.normal(size=3)
        c *= 5 if ce == "long" else 1 / np.linalg.norm(c)
    tol = 1e-9
    if ce == "near":
        # close to one of the poles
        c = np.array([0, 0, g.choice([1.0, -1.0])]) + 10.0 ** -g.integers(1, 7) * c
        tol = 1e-6
    if case["kind"] == "integer":
        X = np.rint(X).astype(np.int64)
    X = lay(X, case["layout"])
    X0, c0 = X.copy(), c.copy()
    R = ctx.call(P.stereographic_projection_hemispheres, X) if ce == "default" else ctx.call(P.stereographic_projection_hemispheres, X, c)
    R = ctx.array(R, (n, 2), "two-disk chart", kind="real", finite=True)
    ctx.equal(np.asarray(X), X0, "the points were modified:")
    ctx.equal(c, c0, "the centre was modified:")
    cu = c0 / np.linalg.norm(c0)
    h = X0 @ cu
    ctx.require(np.all((h >= -tol) | (R[:, 0] < 1.25)) and np.all((h <= tol) | (R[:, 0] > 1.25)), "a point lies in the disk of the other hemisphere")
    up = R[:, 0] > 1.25
    Q = R - np.outer(up, [2.5, 0])
    r2 = (Q**2).sum(1)
    ctx.require(np.all(r2 <= 1 + tol), "image outside the unit disks")
    # recover the sphere points, up to a rotation about the centre
    L = np.concatenate([2 * Q, np.where(up, 1, -1)[:, None] * (1 - r2)[:, None]], 1) / (1 + r2)[:, None]
    ctx.close(L[:, 2], h, tol, "recovered height over the equator of the centre")
    sub = some(n)
    ctx.close(L[sub] @ L[sub].T, X0[sub] @ X0[sub].T, tol, "inner products of the recovered points")
    if ce == "default":
        ctx.close(L, X0, 1e-9, "recovered points")
    elif ce not in ("south",):
        # the rotation is orientation preserving
        if n >= 3:
            d1, d2 = np.linalg.det(X0[:3]), np.linalg.det(L[:3])
            ctx.require(abs(d1 - d2) < 1e-5, lambda: "orientation reversed: determinants %r, %r" % (d1, d2))
    ctx.nontrivial(n >= 3 and (h > 0.01).any() and (h < -0.01).any())
    ctx.label(case["kind"], ce)


TESTS = [
    Test("hopf", hopf_strategy, check_hopf, quick=4000, thorough=120000),
    Test("disks", disk_strategy, check_disk, quick=5000, thorough=120000),
]
