"""C25: example datasets."""
import numpy as np
from hypothesis import strategies as st
from lib.core import Test
from lib.strat import SEED, rng, mix, grid, fl
from dreimac import GeometryExamples as E

RULE = (
    "every example generator with random sizes, radii, noise levels, seeds and a scrambled global random state; the points are tested against the implicit "
    "equations of the space, and the call is repeated under another random state. Non-trivial: at least 20 samples."
)
ASSUMPTIONS = ["R > r > 0 for tori and Klein bottles; horizontal_width >= 2 for the trefoil"]
SEEDS = mix(st.none(), st.integers(0, 2**31 - 1), st.integers(0, 50))


def twice(ctx, case, fn, *a, **k):
    """The call under two different states of the global generator."""
    np.random.seed(case["g1"])
    x = ctx.call(fn, *a, **k)
    np.random.seed(case["g2"])
    np.random.random(3)
    y = ctx.call(fn, *a, **k)
    xs = x if isinstance(x, tuple) else (x,)
    ys = y if isinstance(y, tuple) else (y,)
    ctx.require(len(xs) == len(ys), "different results for equal arguments")
    for p, q in zip(xs, ys):
        ctx.require(np.array_equal(np.asarray(p), np.asarray(q)), "%s: equal arguments gave different data under another state of the global random generator" % fn.__name__)
    return x


def S(d):
    d = dict(d)
    d["g1"] = st.integers(0, 2**32 - 1)
    d["g2"] = st.integers(0, 2**32 - 1)
    return st.fixed_dictionaries(d)


def other_seed(ctx, case, fn, *a):
    """Different explicit seeds give different samples."""
    s = case["seed"] if case["seed"] is not None else 0
    x, y = ctx.call(fn, *a, seed=s), ctx.call(fn, *a, seed=s + 1)
    x, y = (x[0], y[0]) if isinstance(x, tuple) else (x, y)
    ctx.require(not np.array_equal(np.asarray(x), np.asarray(y)), "%s: seeds %d and %d give the same sample" % (fn.__name__, s, s + 1))


def torus_strategy():
    return S({"n": mix(st.integers(1, 30), st.integers(100, 700)), "r": grid(0.25, 3, 4), "gap": grid(0.25, 4, 4), "seed": SEEDS, "klein": st.booleans()})


def spread_out(ctx, ang, what):
    if len(ang) >= 300:
        h = np.histogram(np.asarray(ang) % (2 * np.pi), bins=8, range=(0, 2 * np.pi))[0]
        ctx.require(h.min() > 0, lambda: "%s is not covered: %s" % (what, h))


def check_torus(case, ctx):
    n, r = case["n"], case["r"]
    R = r + case["gap"]
    fn = E.klein_bottle_4d if case["klein"] else E.torus_3d
    X = twice(ctx, case, fn, n, R, r, seed=case["seed"])
    X = ctx.array(X, (n, 4 if case["klein"] else 3), fn.__name__, kind="real", finite=True)
    rho = np.hypot(X[:, 0], X[:, 1])
    ctx.nontrivial(n >= 20)
    ctx.label(fn.__name__)
    phi = np.arctan2(X[:, 1], X[:, 0])
    if case["klein"]:
        h2 = X[:, 2] ** 2 + X[:, 3] ** 2
        ctx.close((rho - R) ** 2 + h2, np.full(n, r * r), 1e-9 * (1 + R) ** 2, "Klein bottle equation")
        z = (X[:, 2] + 1j * X[:, 3]) ** 2
        ctx.close(z * rho, (X[:, 0] + 1j * X[:, 1]) * h2, 1e-9 * (1 + R) ** 3, "half-angle twist of the Klein bottle")
        w = np.real((X[:, 2] + 1j * X[:, 3]) * np.exp(-1j * (phi % (2 * np.pi)) / 2))
        spread_out(ctx, np.arctan2(w, rho - R), "Klein bottle fibre")
    else:
        ctx.close((rho - R) ** 2 + X[:, 2] ** 2, np.full(n, r * r), 1e-9 * (1 + R) ** 2, "torus equation")
        spread_out(ctx, np.arctan2(X[:, 2], rho - R), "torus fibre")
    spread_out(ctx, phi, fn.__name__ + " base circle")
    other_seed(ctx, case, fn, n, R, r)
    if case["seed"] is None:
        ctx.equal(ctx.call(fn, n, R, r), ctx.call(fn, n, R, r, seed=n), "default seed against the number of samples:")


def rp2_strategy():
    return S({"n": mix(st.integers(1, 30), st.integers(30, 400)), "seed": SEEDS})


def check_rp2(case, ctx):
    n = case["n"]
    r = twice(ctx, case, E.rp2_metric, n, seed=case["seed"])
    ctx.require(isinstance(r, tuple) and len(r) == 2, "two results expected")
    X = ctx.array(r[0], (n, 3), "points", kind="real", finite=True)
    D = ctx.array(r[1], (n, n), "distances", kind="real", finite=True)
    ctx.close((X**2).sum(1), np.ones(n), 1e-9, "squared norms")
    metric(ctx, D)
    ip = np.abs(X @ X.T)
    cr = np.sqrt(np.maximum(1 - np.minimum(ip, 1) ** 2, 0))
    ctx.close(D, np.arctan2(cr, ip), 1e-6, "projective distances of the returned points")
    spread_out(ctx, np.arctan2(X[:, 1], X[:, 0]), "projective plane")
    other_seed(ctx, case, E.rp2_metric, n)
    if case["seed"] is None:
        ctx.equal(ctx.call(E.rp2_metric, n)[0], ctx.call(E.rp2_metric, n, seed=n)[0], "default seed against the number of samples:")
    ctx.nontrivial(n >= 20)


def metric(ctx, D):
    n = len(D)
    ctx.require(np.all(D >= 0), "negative distances")
    ctx.close(D, D.T, 1e-9, "symmetry of the distance matrix")
    ctx.close(np.diag(D), np.zeros(n), 1e-6, "diagonal of the distance matrix")
    off = D[~np.eye(n, dtype=bool)]
    ctx.require(off.size == 0 or off.min() > 0, "distinct points at distance zero")


def circle_strategy():
    return S({"n": mix(st.integers(1, 30), st.integers(50, 600)), "noise": mix(grid(0, 1, 10), st.none()), "seed": mix(st.integers(0, 2**31 - 1), st.integers(0, 9))})


def check_circle(case, ctx):
    n = case["n"]
    kw = {} if case["noise"] is None else {"noise_size": case["noise"]}
    X = twice(ctx, case, E.noisy_circle, n, seed=case["seed"], **kw)
    X = ctx.array(X, (n, 2), "noisy_circle", kind="real", finite=True)
    z = 0.2 if case["noise"] is None else case["noise"]
    d = np.abs(np.hypot(X[:, 0], X[:, 1]) - 1)
    ctx.require(d.max() <= z / np.sqrt(2) + 1e-9, lambda: "a sample is %.3f away from the circle with noise %.2f" % (d.max(), z))
    if n >= 200 and z:
        ctx.require(d.max() >= z / 20, "no noise although noise was asked for")
    spread_out(ctx, np.arctan2(X[:, 1], X[:, 0]), "circle")
    other_seed(ctx, case, E.noisy_circle, n)
    if case["seed"] == 0:
        ctx.equal(ctx.call(E.noisy_circle, n, **kw), X, "default seed against seed 0:")
    ctx.nontrivial(n >= 20)


def sphere_strategy():
    return S({"n": mix(st.integers(1, 30), st.integers(50, 600))})


def check_sphere(case, ctx):
    n = case["n"]
    X = ctx.array(twice(ctx, case, E.sphere, n), (n, 3), "sphere", kind="real", finite=True)
    ctx.close((X**2).sum(1), np.ones(n), 1e-9, "squared norms")
    if n >= 200:
        oct_ = set(map(tuple, (X > 0).tolist()))
        ctx.require(len(oct_) == 8, "some octant of the sphere has no samples")
    ctx.nontrivial(n >= 20)


def trefoil_strategy():
    return S({"n": mix(st.integers(1, 30), st.integers(50, 600)), "w": grid(2, 10, 2), "noisy": st.booleans(), "defaults": st.booleans()})


def check_trefoil(case, ctx):
    n, w = case["n"], case["w"]
    if case["defaults"]:
        w = 6
        X = twice(ctx, case, E.trefoil, n, noisy=case["noisy"])
    else:
        X = twice(ctx, case, E.trefoil, n, horizontal_width=w, noisy=case["noisy"])
    X = ctx.array(X, (n, 3), "trefoil", kind="real", finite=True)
    rho = np.hypot(X[:, 0], X[:, 1])
    u0 = np.arctan2(X[:, 1], X[:, 0])
    best = np.full(n, np.inf)
    for u in (u0, u0 + 2 * np.pi):
        e = (rho - w * (1.5 + np.sin(1.5 * u) / 2)) ** 2 + (X[:, 2] - 4 * np.cos(1.5 * u)) ** 2
        best = np.minimum(best, np.abs(e - 1))
    ctx.require(best.max() < 1e-6, lambda: "a sample is not on the trefoil tube (off by %r)" % best.max())
    err = [(rho - w * (1.5 + np.sin(1.5 * u) / 2)) ** 2 + (X[:, 2] - 4 * np.cos(1.5 * u)) ** 2 for u in (u0, u0 + 2 * np.pi)]
    clear = np.abs(np.abs(err[0] - 1) - np.abs(err[1] - 1)) > 1e-3
    turn = np.abs(err[1] - 1) < np.abs(err[0] - 1)
    spread_out(ctx, ((u0 % (2 * np.pi)) + 2 * np.pi * (turn ^ (u0 < 0)))[clear] / 2, "trefoil")
    if not case["noisy"]:
        # without noise the samples run along one curve on the tube, on it every distance to the axis is a function of the angle
        h = np.abs(X[:, 2][:, None] - 4 * np.cos(1.5 * np.stack([u0, u0 + 2 * np.pi], 1))).min(1)
        ctx.require(h.max() < 1e-6, lambda: "without noise a sample is %.3f above or below the curve" % h.max())
    elif n >= 200:
        h = np.abs(X[:, 2][:, None] - 4 * np.cos(1.5 * np.stack([u0, u0 + 2 * np.pi], 1))).min(1)
        ctx.require(h.max() > 0.1, "no noise although noise was asked for")
    ctx.nontrivial(n >= 20)
    ctx.label("noisy" if case["noisy"] else "curve")


def fixed_strategy():
    return S({"which": st.sampled_from(["bullseye", "three_circles", "genus_two_surface"])})


def check_fixed(case, ctx):
    w = case["which"]
    X = twice(ctx, case, getattr(E, w))
    X = ctx.array(X, None, w, kind="real", finite=True)
    ctx.nontrivial(len(X) >= 20)
    ctx.label(w)
    if w == "bullseye":
        ctx.array(X, (600, 2), w)
        d = np.hypot(X[:, 0], X[:, 1])
        k = np.rint(d)
        ctx.require(np.abs(d - k).max() <= 0.05 * np.sqrt(2) + 1e-9, "sample off its circle")
        for r in (1, 2, 3):
            ctx.require(int((k == r).sum()) == 200, "circle of radius %d has %d samples" % (r, (k == r).sum()))
            spread_out(ctx, np.repeat(np.arctan2(X[k == r, 1], X[k == r, 0]), 2), "circle of radius %d" % r)
        ctx.require(np.abs(d - k).max() > 0.01, "no noise")
    elif w == "three_circles":
        ctx.array(X, (1050, 2), w)
        best = np.full(len(X), np.inf)
        counts = []
        for c, r in (((0, 0), 1), ((4, 0), 2), ((-4, 0), 2.5)):
            d = np.abs(np.hypot(X[:, 0] - c[0], X[:, 1] - c[1]) - r)
            counts.append(int((d <= 0.15 * np.sqrt(2) + 1e-9).sum()))
            best = np.minimum(best, d)
        for c, r in (((0, 0), 1), ((4, 0), 2), ((-4, 0), 2.5)):
            Z = X - np.array(c)
            Z = Z[np.abs(np.hypot(Z[:, 0], Z[:, 1]) - r) <= 0.25]
            spread_out(ctx, np.tile(np.arctan2(Z[:, 1], Z[:, 0]), 6), "circle of radius %r" % r)
        ctx.require(best.max() <= 0.15 * np.sqrt(2) + 1e-9, lambda: "a sample is %.3f away from the circles" % best.max())
        ctx.require(counts[0] >= 50 and counts[1] >= 500 and counts[2] >= 500, lambda: "samples per circle: %s" % counts)
    else:
        ctx.require(X.ndim == 2 and X.shape[1] == 3 and len(X) > 1000, "shape %s" % (X.shape,))
        left = (np.hypot(X[:, 0], X[:, 1]) - 5) ** 2 + X[:, 2] ** 2
        right = (np.hypot(X[:, 0] - 9, X[:, 1]) - 5) ** 2 + X[:, 2] ** 2
        ok = (np.abs(left - 4) < 1e-9) & (X[:, 0] <= 4.5 + 1e-12) | (np.abs(right - 4) < 1e-9) & (X[:, 0] >= 4.5 - 1e-12)
        ctx.require(ok.all(), "a sample is on neither half of the surface")
        ctx.require(abs(int((X[:, 0] < 4.5).sum()) - int((X[:, 0] > 4.5).sum())) < 0.1 * len(X), "one half of the surface is missing")
        for Z in (X[X[:, 0] < 4.5], X[X[:, 0] > 4.5] - np.array([9, 0, 0])):
            spread_out(ctx, np.arctan2(Z[:, 2], np.hypot(Z[:, 0], Z[:, 1]) - 5), "one half of the surface (around the tube)")
            spread_out(ctx, np.arctan2(Z[:, 1], Z[:, 0]), "one half of the surface (along the tube)")


def patch_strategy():
    return S({"dim": st.integers(2, 14), "na": st.integers(1, 9), "no": st.integers(2, 9), "sigma": grid(0.1, 2, 10), "dot": st.booleans(), "defaults": st.booleans()})


def check_patch(case, ctx):
    dim, na, no, sg = case["dim"], case["na"], case["no"], case["sigma"]
    ctx.nontrivial(na * no >= 20 or case["dot"] and na >= 5)
    if case["dot"]:
        if case["defaults"]:
            dim, sg = 10, 3
            P = twice(ctx, case, E.moving_dot, na)
        else:
            sg = sg * 3
            P = twice(ctx, case, E.moving_dot, na, sigma=sg, dim=dim)
        P = ctx.array(P, (na * na, dim * dim), "moving_dot", kind="real", finite=True)
        ax = np.linspace(-(dim - 1) / 2, (dim - 1) / 2, dim)
        t = 15 * np.linspace(-1, 1, na) ** 3 if na > 1 else np.array([-15.0])
        W = []
        for a in t:
            for b in t:
                W.append(np.outer(np.exp(-0.5 * ((ax - a) / sg) ** 2), np.exp(-0.5 * ((ax - b) / sg) ** 2)).ravel())
        # the same dots, in any order
        W = np.array(W)
        if na > 1:
            ctx.close(np.sort(P.sum(1)), np.sort(W.sum(1)), 1e-6, "total brightness of the dots")
        d = np.abs(P[:, None, :] - W[None]).max(-1) if len(P) * len(W) * dim * dim < 4e6 else None
        if d is not None and na > 1:
            ctx.require(d.min(1).max() < 1e-9 and d.min(0).max() < 1e-9, "the patches are not dots moving over the grid")
        ctx.label("moving_dot")
    else:
        P = ctx.array(twice(ctx, case, E.line_patches, dim, na, no, sg), (na * no, dim * dim), "line_patches", kind="real", finite=True)
        th = np.arange(na) * np.pi / na
        ps = np.linspace(-1, 1, no)
        c = np.linspace(-0.5, 0.5, dim)
        Q = P.reshape(na, no, dim, dim)
        for i in range(na):
            for j in range(no):
                want = np.exp(-((c[:, None] * np.cos(th[i]) + c[None, :] * np.sin(th[i]) + ps[j]) ** 2) / sg**2)
                ctx.close(Q[i, j], want, 1e-9, "line patch %d, %d" % (i, j))
        ctx.label("line_patches")


def moore_strategy():
    return S({"n": st.integers(5, 90), "q": mix(st.integers(2, 7), st.sampled_from([5, 7, 11, 13, 19, 31])), "defaults": st.booleans()})


def check_moore(case, ctx):
    n, q = case["n"], case["q"]
    if case["defaults"]:
        q = 3
        r = twice(ctx, case, E.moore_space_distance_matrix, n)
    else:
        r = twice(ctx, case, E.moore_space_distance_matrix, rough_n_points=n, prime=q)
    ctx.require(isinstance(r, tuple) and len(r) == 2, "two results expected")
    X = ctx.array(r[1], None, "points", kind="real", finite=True)
    m = len(X)
    ctx.require(X.shape == (m, 2) and 0 < m <= n, "points of shape %s" % (X.shape,))
    if n >= 60:
        ctx.require(abs(m - n * np.pi / 4) < 0.25 * n, "%d points for %d asked" % (m, n))
    D = ctx.array(r[0], (m, m), "distances", kind="real", finite=True)
    rad = np.hypot(X[:, 0], X[:, 1])
    ctx.require(rad.max() <= 1 + 1e-12, "point outside the disk")
    if m >= 45:
        ctx.require(rad.max() > 0.8, lambda: "the samples leave out the rim of the disk (largest radius %.3f)" % rad.max())
        ctx.require(len(set(map(tuple, (X > 0).tolist()))) == 4, "some quadrant of the disk has no samples")
    metric(ctx, D)
    E2 = np.sqrt(((X[:, None] - X[None]) ** 2).sum(-1))
    ang = np.arctan2(X[:, 1], X[:, 0])
    via = np.full((m, m), np.inf)
    for k in range(q):
        b = np.stack([np.cos(ang + 2 * np.pi * k / q), np.sin(ang + 2 * np.pi * k / q)], 1)
        via = np.minimum(via, (1 - rad)[:, None] + np.sqrt(((b[:, None] - X[None]) ** 2).sum(-1)))
    want = np.minimum(E2, np.minimum(via, via.T))
    ctx.close(D, want, 1e-9, "Moore space distances of the returned points")
    ctx.nontrivial(m >= 20)
    ctx.label("q=%d" % q)


def full(ctx, columns, bins, what):
    """Every cell of a grid on [0, 1)^d holds a sample."""
    H = np.histogramdd(np.stack([np.clip(c, 0, 1) for c in columns], 1), bins=bins, range=[(0, 1)] * len(columns))[0]
    ctx.require(H.min() > 0, lambda: "%s: %d samples leave out the part %s of it" % (what, len(columns[0]), np.round(np.array(np.unravel_index(int(H.argmin()), H.shape)) / np.array(bins), 3).tolist()))


def turn_of(x, y):
    return (np.arctan2(y, x) / (2 * np.pi)) % 1


def large_strategy():
    return S({"which": st.sampled_from(["torus_3d", "klein_bottle_4d", "rp2_metric", "sphere", "noisy_circle", "trefoil", "moore_space_distance_matrix"]), "seed": st.integers(0, 10**6),
              "r": grid(0.5, 2, 2), "gap": grid(1, 4, 2), "w": grid(3, 8, 1), "more": st.integers(0, 2000)})


def check_large(case, ctx):
    """Cells are so large that leaving one empty by chance has a probability below 1e-10, also for samplings of other densities (uniform in area)."""
    w, r, R = case["which"], case["r"], case["r"] + case["gap"]
    n = 16000 + case["more"]
    ctx.nontrivial()
    ctx.label(w)
    np.random.seed(case["g1"])
    if w in ("torus_3d", "klein_bottle_4d"):
        X = ctx.array(ctx.call(getattr(E, w), n, R, r, seed=case["seed"]), (n, 3 if w == "torus_3d" else 4), w, kind="real", finite=True)
        rho, phi = np.hypot(X[:, 0], X[:, 1]), turn_of(X[:, 0], X[:, 1])
        h = X[:, 2] if w == "torus_3d" else np.real((X[:, 2] + 1j * X[:, 3]) * np.exp(-1j * np.pi * phi))
        fib = turn_of(rho - R, h)
        full(ctx, [phi], [50], w + " (around the axis)")
        full(ctx, [fib], [50], w + " (around the tube)")
        full(ctx, [phi, fib], [8, 8], w)
    elif w == "rp2_metric":
        n = 1200
        X = np.asarray(ctx.call(E.rp2_metric, n, seed=case["seed"])[0])
        X = X * np.where(X[:, 2] < 0, -1, 1)[:, None]
        full(ctx, [turn_of(X[:, 0], X[:, 1])], [16], w + " (longitude)")
        full(ctx, [X[:, 2]], [16], w + " (height)")
        full(ctx, [turn_of(X[:, 0], X[:, 1]), X[:, 2]], [4, 4], w)
    elif w == "sphere":
        X = ctx.array(ctx.call(E.sphere, n), (n, 3), w, kind="real", finite=True)
        for a in range(3):
            full(ctx, [(X[:, a] + 1) / 2], [40], "sphere (along axis %d)" % a)
            full(ctx, [turn_of(X[:, a], X[:, a - 1])], [50], "sphere (around axis %d)" % a)
        full(ctx, [turn_of(X[:, 0], X[:, 1]), (X[:, 2] + 1) / 2], [8, 8], "sphere")
    elif w == "noisy_circle":
        X = ctx.array(ctx.call(E.noisy_circle, n, noise_size=0.3, seed=case["seed"]), (n, 2), w, kind="real", finite=True)
        full(ctx, [turn_of(X[:, 0], X[:, 1])], [50], "circle")
        # the noise goes both ways
        d = np.hypot(X[:, 0], X[:, 1]) - 1
        ctx.require(d.min() < -0.09 and d.max() > 0.09, lambda: "noise of size 0.3 moves points by %.3f to %.3f only" % (d.min(), d.max()))
    elif w == "trefoil":
        wd = case["w"]
        X = ctx.array(ctx.call(E.trefoil, n, horizontal_width=wd), (n, 3), w, kind="real", finite=True)
        rho, u0 = np.hypot(X[:, 0], X[:, 1]), 2 * np.pi * turn_of(X[:, 0], X[:, 1])
        off = []
        for u in (u0, u0 + 2 * np.pi):
            off.append((rho - wd * (1.5 + np.sin(1.5 * u) / 2), X[:, 2] - 4 * np.cos(1.5 * u)))
        err = [np.abs(a * a + b * b - 1) for a, b in off]
        clear = np.abs(err[0] - err[1]) > 1e-3
        k = (err[1] < err[0]).astype(int)
        u = (u0 / (2 * np.pi) + k) / 2
        a, b = np.where(k, off[1][0], off[0][0]), np.where(k, off[1][1], off[0][1])
        full(ctx, [u[clear]], [50], "trefoil (along the knot)")
        full(ctx, [turn_of(a, b)[clear]], [40], "trefoil (around the tube)")
        full(ctx, [u[clear], turn_of(a, b)[clear]], [8, 8], "trefoil")
    else:
        n = 500
        D, X = (np.asarray(v) for v in ctx.call(E.moore_space_distance_matrix, rough_n_points=n, prime=3))
        rad = np.hypot(X[:, 0], X[:, 1])
        full(ctx, [rad**2], [8], "Moore space (radius)")
        full(ctx, [turn_of(X[:, 0], X[:, 1])], [8], "Moore space (angle)")


TESTS = [
    Test("tori", torus_strategy, check_torus, quick=1500, thorough=30000),
    Test("rp2", rp2_strategy, check_rp2, quick=500, thorough=10000),
    Test("circle", circle_strategy, check_circle, quick=1000, thorough=20000),
    Test("sphere", sphere_strategy, check_sphere, quick=400, thorough=6000),
    Test("trefoil", trefoil_strategy, check_trefoil, quick=600, thorough=10000),
    Test("fixed", fixed_strategy, check_fixed, quick=48, thorough=300,
         fixed=[{"which": w, "g1": 1, "g2": 2} for w in ("bullseye", "three_circles", "genus_two_surface")]),
    Test("patches", patch_strategy, check_patch, quick=700, thorough=15000),
    Test("large", large_strategy, check_large, quick=160, thorough=2500, modes=("jit",),
         fixed=[{"which": w, "g1": 1, "g2": 2, "seed": 5, "r": 1.0, "gap": 1.0, "w": 6, "more": 0} for w in
                ("torus_3d", "klein_bottle_4d", "rp2_metric", "sphere", "noisy_circle", "trefoil", "moore_space_distance_matrix")]),
    Test("moore", moore_strategy, check_moore, quick=60, thorough=2000, modes=("nojit", "jit"), weight=0.7),
]
