"""C24: lens-space chart."""
import numpy as np
from hypothesis import strategies as st
from lib.core import Test
from lib.strat import SEED, rng, mix, lay, layouts, grid, sizes
from dreimac import LensMapUtils as L

RULE = (
    "unit vectors of C^2 given by two arguments and a modulus (random, multiples of 1/24 turn, tiny or almost full moduli), q in 2..30 (primes and others) and up to 1009, "
    "compared with all their multiples by q-th roots of unity. Points within 1e-6 of the glued boundary (first argument on a sector boundary, "
    "or first coordinate zero) are required to have one of the two glued images, respectively a point of the circle with the right argument. Non-trivial: a point away from the boundary outside the first sector."
)
ASSUMPTIONS = ["inputs are unit vectors of C^2; q >= 2"]
TAU = 2 * np.pi


def strategy():
    return st.fixed_dictionaries({
        "n": sizes(sizes(mix(st.integers(1, 5), st.integers(1, 40)), 1200, 25), 6000, 80), "q": mix(st.sampled_from([2, 3, 5, 7, 11, 13, 17, 19, 23, 29]), st.integers(2, 30), st.sampled_from([31, 37, 41, 41, 43, 47, 61, 64, 97, 127, 128, 131, 257, 1009])),
        "seed": SEED, "kind": st.sampled_from(["random", "grid", "thin", "boundary", "pole"]), "layout": layouts(),
    })


def points(case):
    g = rng(case["seed"])
    n, q = case["n"], case["q"]
    t1, t2 = g.random(n) * TAU, g.random(n) * TAU
    r = np.sqrt(g.random(n))
    k = case["kind"]
    if k == "grid":
        t1 = (g.integers(0, 4 * q, n) + 0.5) / (4 * q) * TAU
        t2 = g.integers(0, 24, n) / 24 * TAU
    elif k == "thin":
        r = g.choice([1e-9, 1e-4, 1 - 1e-9, 1 - 1e-4, 0.0], n)
    elif k == "boundary":
        t1 = g.integers(-q, q, n) / q * TAU + g.choice([0, 0, 1e-8, -1e-8, 1e-12, -1e-12], n)
    elif k == "pole":
        r = np.ones(n)
    X = np.stack([np.sqrt(np.maximum(1 - r * r, 0)) * np.exp(1j * t1), r * np.exp(1j * t2)], 1)
    nrm = np.linalg.norm(X, axis=1)
    return X / nrm[:, None]


def check(case, ctx):
    q = case["q"]
    X = points(case)
    n = len(X)
    Xin = lay(X, case["layout"])
    Y = ctx.array(ctx.call(L.lens_3D_to_disk_3D, Xin, q), (n, 3), "chart", kind="real", finite=True)
    ctx.equal(np.asarray(Xin), X, "the points were modified:")
    rr = np.sqrt((Y**2).sum(1))
    ctx.require(np.all(rr <= 1 + 1e-9), lambda: "image outside the unit ball: %r" % rr.max())
    r = np.abs(X[:, 1])
    ctx.close(np.hypot(Y[:, 0], Y[:, 1]), r, 1e-7, "horizontal radius")
    sector = (np.angle(X[:, 0]) / TAU * q) % 1
    inside = (np.minimum(sector, 1 - sector) > 1e-6) & (np.abs(X[:, 0]) > 1e-6)
    ctx.label("q=%d" % q, case["kind"])
    ctx.note(points=n, away_from_boundary=int(inside.sum()))
    # all representatives of the same points of the lens space
    for k in range(1, q) if q <= 30 and n <= 1200 else sorted({1, q - 1, q // 2, case["seed"] % (q - 1) + 1} if n <= 1200 else {1, q - 1}):
        Z = ctx.array(ctx.call(L.lens_3D_to_disk_3D, X * np.exp(2j * np.pi * k / q), q), (n, 3), "chart", kind="real", finite=True)
        ctx.close(Z[inside], Y[inside], 1e-6, "image after multiplying by the %d-th power of the root of unity" % k)
        ctx.require(np.all((Z**2).sum(1) <= 1 + 1e-9), "image outside the unit ball")
    # on the boundary: one of the two glued images
    step = TAU / q
    k0 = np.rint(np.angle(X[:, 0]) / step)
    H, m0 = Y[:, 0] + 1j * Y[:, 1], np.sqrt(np.maximum(1 - r**2, 0))
    gap = np.abs(np.angle(X[:, 0]) - k0 * step)
    for name, where, slack in (("on", gap < 1e-9, 1e-6), ("near", (gap < 1e-6), 1e-4 * max(1, q / 30))):
        B = where & (np.abs(X[:, 0]) > 1e-4)
        if B.any():
            low = np.maximum(np.abs(H - X[:, 1] * np.exp(-1j * k0 * step)), np.abs(Y[:, 2] + m0))
            high = np.maximum(np.abs(H - X[:, 1] * np.exp(-1j * (k0 - 1) * step)), np.abs(Y[:, 2] - m0))
            off = np.minimum(low, high)[B]
            ctx.require(np.all(off < slack), lambda: "a point %s the glued boundary is sent %r away from both of its glued images" % (name, off.max()))
            ctx.label("boundary point %s" % name)
    pole = np.abs(X[:, 0]) <= 1e-6
    if pole.any():
        off = np.abs(H[:, None] - X[:, 1][:, None] * np.exp(-1j * step * np.arange(q))[None, :]).min(1)[pole]
        ctx.require(np.all(off < 1e-5), lambda: "a point with vanishing first coordinate is sent %r away from its images" % off.max())
    if not inside.any():
        return
    Xi, Yi, ri = X[inside], Y[inside], r[inside]
    ctx.nontrivial(bool(np.any((np.angle(Xi[:, 0]) % TAU) > TAU / q)))
    # the image determines the orbit: height gives the angle within the fundamental domain, the horizontal part the second coordinate there
    m1 = np.sqrt(np.maximum(1 - ri**2, 1e-300))
    okz = m1 > 1e-4
    th = (np.clip(Yi[:, 2] / m1, -1, 1) + 1) * np.pi / q
    W = np.stack([np.abs(Xi[:, 0]) * np.exp(1j * th), Yi[:, 0] + 1j * Yi[:, 1]], 1)
    best = np.full(len(W), np.inf)
    for k in range(q):
        best = np.minimum(best, np.abs(W * np.exp(2j * np.pi * k / q) - Xi).max(1))
    ctx.require(np.all(best[okz] <= 1e-4), lambda: "the image does not determine the point (off by %r)" % best[okz].max())
    # continuity inside the fundamental domain: a small move of the point moves the image a little
    g = rng(case["seed"], 3)
    h = 1e-5
    V = Xi + h * (g.normal(size=Xi.shape) + 1j * g.normal(size=Xi.shape)) / 4
    V /= np.linalg.norm(V, axis=1)[:, None]
    s2 = (np.angle(V[:, 0]) / TAU * q) % 1
    s1 = (np.angle(Xi[:, 0]) / TAU * q) % 1
    well = (np.abs(s2 - s1) < 0.5) & (np.minimum(s1, 1 - s1) > 0.01) & (np.abs(Xi[:, 0]) > 0.05)
    same = np.floor((np.angle(V[:, 0]) % TAU) / TAU * q) == np.floor((np.angle(Xi[:, 0]) % TAU) / TAU * q)
    well &= same
    Z = ctx.array(ctx.call(L.lens_3D_to_disk_3D, V, q), (len(V), 3), "chart", finite=True)
    d = np.sqrt(((Z - Yi) ** 2).sum(1))
    ctx.require(np.all(d[well] <= 40 * q * h / 0.05), lambda: "a move of 1e-5 moved the image by %r" % d[well].max())


TESTS = [Test("chart", strategy, check, quick=3000, thorough=80000)]
