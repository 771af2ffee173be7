"""C10: partitions of unity cover exactly the open balls and flag uncovered points."""
import re
import numpy as np
from hypothesis import strategies as st
from dreimac import CircularCoords, LensCoords, ProjectiveCoords
from lib.core import Test
from lib import data, ref, coords
from lib.data import Data
from lib.strat import SEED, rng, sizes, weighted

RULE = (
    "partition: distances from landmarks to points (generic, or small integers so that many equal the radius), a radius and a bump function (own and user-supplied, "
    "recording its arguments), on a fresh object or after another call. integer: the same integer distances as integers, floats and float32. uncovered: a data set with points out of reach added, against "
    "the same data without them, for every kind of coordinate. Non-trivial: some point is covered by two balls (partition), the coordinates exist (integer), some point "
    "is uncovered and some is covered (uncovered)."
)
ASSUMPTIONS = ["bump functions are positive on [0, r), in floating point too (the exponential one underflows to zero within 0.07% of the radius; such cases are discarded)", "uncovered points are counted by the integer that the warning contains"]

BUMPS = coords.BUMP_NAMES + ["power", "step"]


class Spy:
    def __init__(self, name, r, g=None):
        self.calls = []
        base = {"power": lambda d, r: (1 + r - d) ** 7, "step": lambda d, r: np.where(d < r / 2, 3.0, 1.0)}
        self.fn = base.get(name) or coords.bump(name)
        self.ref = base.get(name) or ref.BUMPS[name]

    def __call__(self, ds, r):
        self.calls.append((np.array(ds, copy=True), r))
        return self.fn(ds, r)


def strategy():
    return st.fixed_dictionaries({
        "L": sizes(st.integers(3, 10), 300, 20), "N": sizes(sizes(st.integers(0, 25), 600, 30), 8000, 60), "seed": SEED, "what": st.sampled_from(["integer", "integer", "generic", "generic", "far"]),
        "bump": st.sampled_from(BUMPS), "r": st.sampled_from([1, 2, 3, 4, 5, 0.3, 0.7, 1.5, 2.5]), "dtype": st.sampled_from(["float", "float", "int", "float32"]),
        "cls": st.sampled_from(["circular", "lens", "projective"]), "again": st.sampled_from([0, 0, 1, 1.5, 0.5]),
        "unit": st.sampled_from([0, 0, 0, -40, -20, 20]),
    })


def check(case, ctx):
    g = rng(case["seed"], 21)
    L, N = case["L"], case["N"]
    P = g.integers(0, 6, (L + N, 2)).astype(float) if case["what"] == "integer" else g.random((L + N, 2)) * 4
    if case["what"] == "far":
        P[L:] += np.where(g.random(N) < 0.5, 20, 0)[:, None]
    D = np.abs(P[:L, None, 0] - P[None, :, 0]) + np.abs(P[:L, None, 1] - P[None, :, 1])
    if case["dtype"] == "int":
        D = np.rint(D).astype(np.int64)
    elif case["dtype"] == "float32":
        D = D.astype(np.float32)
    # distances may be tiny or huge; powers of two keep the ties
    unit = 2.0 ** (case.get("unit", 0) if case["dtype"] != "int" else 0)
    if unit != 1:
        D = D * D.dtype.type(unit)
    M = D
    cls = {"circular": CircularCoords, "lens": LensCoords, "projective": ProjectiveCoords}[case["cls"]]
    obj = ctx.call(cls, M, L, distance_matrix=True)
    r = case["r"] * unit if unit != 1 else case["r"]
    spy = Spy(case["bump"], r)
    if case["again"]:
        # an earlier call leaves no trace
        ctx.call_warn(obj.get_covering_partition, r * case["again"], Spy(case["bump"], r))
    (w, first), warns = ctx.call_warn(obj.get_covering_partition, r, spy)
    # what the bump function saw: exactly the distances below the radius
    Mf = M.astype(float)
    if case["dtype"] == "float32" and np.any(np.abs(Mf - r) < 1e-6 * r):
        ctx.discard("a rounded distance ties with the radius")
    U = Mf < r
    seen = np.sort(np.concatenate([np.ravel(c[0]).astype(float) for c in spy.calls] or [np.zeros(0)]))
    ctx.close(seen / unit, np.sort(Mf[U]) / unit, 1e-6 if case["dtype"] == "float32" else 1e-12, "the distances handed to the bump function")
    ctx.require(all(c[1] == r for c in spy.calls), "the bump function was given another radius")
    w = ctx.array(w, M.shape, "the weights", kind="real")
    first = ctx.array(first, (M.shape[1],), "the ball of each point", kind="int")
    cov = U.any(0)
    ctx.nontrivial((U.sum(0) >= 2).any())
    ctx.label(case["what"], case["dtype"], case["bump"], "uncovered" if not cov.all() else "covered", "ties" if (Mf == r).any() else "no ties")
    phi = np.zeros(Mf.shape)
    phi[U] = spy.ref(Mf[U], r)
    if np.any(phi[U] < 1e-300):
        ctx.discard("the bump function underflows")
    want = phi[:, cov] / phi[:, cov].sum(0)
    tol = 1e-5 if case["dtype"] == "float32" else 1e-12
    ctx.require(np.all(w[:, cov][~U[:, cov]] == 0), "a point has weight in a ball that it does not lie in")
    ctx.require(np.all(w[:, cov] >= 0), "a weight is negative")
    ctx.close(w[:, cov], want, tol, "the weights")
    ctx.close(w[:, cov].sum(0), np.ones(cov.sum()), 1e-6 if case["dtype"] == "float32" else 1e-12, "the sums of the weights")
    ctx.require(np.all(np.isnan(w[:, ~cov])), "an uncovered point has defined weights")
    ctx.require(first[cov].min(initial=0) >= 0 and first[cov].max(initial=0) < len(U) and bool(U[first[cov], np.nonzero(cov)[0]].all()), "the ball named for a covered point does not contain it")
    warned(ctx, warns, int((~cov).sum()))


def warned(ctx, warns, n):
    about = [x for x in warns if "not covered" in x or "uncovered" in x]
    if n == 0:
        ctx.require(not about, lambda: "every point is covered, but a warning says: %s" % about[0])
        return
    ctx.require(bool(about), lambda: "%d points are not covered, and there is no warning about them (warnings: %s)" % (n, warns))
    nums = [int(v) for v in re.findall(r"\d+", about[0])]
    ctx.require(n in nums, lambda: "%d points are not covered, the warning says: %s" % (n, about[0]))


# ---- integer-valued distances --------------------------------------------------------------------------------------

def strategy_int():
    return st.fixed_dictionaries({
        "n": st.integers(6, 14), "seed": SEED, "step": st.sampled_from([1, 1, 2, 10, 60, "max"]), "extra": st.integers(0, 8),
        "chords": st.integers(0, 3), "kind": st.sampled_from(["circular", "toroidal", "projective", "lens"]),
        "bump": st.sampled_from(["linear", "quadratic", "exp", "tent", "ones"]), "perc": st.sampled_from([0.5, 0.9, 0.25, 0.7]),
        "dtype": st.sampled_from(["int64", "int32", "uint16", "float32", "int16", "uint8", "int8"]),
        "own": st.booleans(),
    })


def check_int(case, ctx):
    g = rng(case["seed"], 22)
    n = case["n"]
    top = np.iinfo(case["dtype"]).max if case["dtype"] != "float32" else 2**20
    # "max": the distances use the whole range of the integer type
    step = max(1, min(top, 10**6) // (n + 3)) if case["step"] == "max" else case["step"]
    W = np.full((n, n), np.inf)
    for i in range(n):
        W[i, (i + 1) % n] = W[(i + 1) % n, i] = step * int(g.integers(1, 3))
    for _ in range(case["chords"]):
        i, j = g.choice(n, 2, replace=False)
        W[i, j] = W[j, i] = min(W[i, j], step * int(g.integers(1, 4)))
    D = data.shortest(W)
    cols = []
    for _ in range(case["extra"]):
        i, t = int(g.integers(0, n)), step * int(g.integers(0, 2))
        cols.append(D[i] + t)
    M = np.concatenate([D] + [np.array(cols).T], 1) if cols else D
    if M.max() > top:
        ctx.discard("the distances do not fit the integer type")
    outs = []
    kind = case["kind"]
    for dt in (case["dtype"], "float64"):
        A = M.astype(dt)
        obj = ctx.call({"circular": CircularCoords, "toroidal": coords.ToroidalCoords, "projective": ProjectiveCoords, "lens": LensCoords}[kind], A, n, distance_matrix=True)
        kw = {"perc": case["perc"], "partunity_fn": coords.bump(case["bump"]), "standard_range": False}
        if kind in ("lens", "projective"):
            # the map before reduction
            kw["complex_dim" if kind == "lens" else "proj_dim"] = n - (kind == "projective")
        out = ctx.outcome(obj.get_coordinates, **kw)
        outs.append(out)
    a, b = outs
    if b[0] == "raised":
        ctx.discard("no class")
    ctx.require(a[0] == "ok", lambda: "coordinates exist for floating-point distances, but for %s ones: %s" % (case["dtype"], a[1:]))
    x, y = np.array(a[1]), np.array(b[1])
    ctx.nontrivial(np.isfinite(y).any())
    ctx.label(kind, case["dtype"])
    if kind in ("circular", "toroidal"):
        ctx.circle_close(x, y, 1e-3 if case["dtype"] == "float32" else 1e-6, "coordinates for %s distances against floating-point ones" % case["dtype"])
    else:
        i = np.isfinite(y).all(1)
        ctx.require(np.array_equal(i, np.isfinite(x).all(1)), "other points have undefined coordinates")
        ctx.close(x[i] @ x[i].conj().T, y[i] @ y[i].conj().T, 1e-3 if case["dtype"] == "float32" else 1e-8, "inner products of coordinates for %s distances against floating-point ones" % case["dtype"])


# ---- uncovered points ----------------------------------------------------------------------------------------------

def strategy_un():
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["circular", "toroidal", "projective", "lens", "cp"]),
        "data": weighted([(40, data.recipe(coords.FLAT, n=(6, 22), pres=("rect",))), (1, data.many(data.recipe(coords.FLAT, n=(6, 16), pres=("rect",))))]),
        "solid": data.recipe(coords.SOLID, n=(6, 12), pres=("rect",)),
        "par": coords.params(),
        "far": st.integers(1, 4), "seed": SEED, "keep": st.sampled_from([1, 2, 2, 3]),
        "mode": st.sampled_from(["exponential", "direct", "one-by-one"]), "prime": st.sampled_from([41, 3, 7]), "again": st.booleans(),
    })


def check_un(case, ctx):
    kind = case["kind"]
    k = 2 if kind == "cp" else 1
    p = 2 if kind == "projective" else case["prime"]
    d = data.build(case["solid"] if k == 2 else case["data"])
    if not d.dm:
        ctx.discard("points")
    L, rows = d.nl, d.X.shape[0]
    if rows == d.X.shape[1] and L < rows:
        ctx.discard("square")
    em = ref.EM(d.X, d.nl, d.dm, p, maxdim=k)
    s = coords.setting(d, em, case["par"], ctx, k=k)
    if kind in ("circular", "toroidal", "cp") and not ref.has_integral_lift(s.c, p, s.A, k)[0]:
        ctx.discard("no integer lift (C03)")
    g = rng(case["seed"], 23)
    # out of reach: at least the radius away from every landmark, barely so for some
    M = np.array(d.X, dtype=float)
    cols = []
    for _ in range(case["far"]):
        i = int(g.integers(0, M.shape[1]))
        up = np.maximum(M[:, i] + 3 * s.R, s.R) if g.random() < 0.6 else np.maximum(M[:, i] + s.r, s.r * (1 + 1e-9))
        cols.append(up)
    at = np.sort(g.integers(rows, M.shape[1] + 1, case["far"]))
    M2 = np.insert(M, at, np.array(cols).T, axis=1)
    old = np.ones(M2.shape[1], dtype=bool)
    old[at + np.arange(case["far"])] = False
    if M2.shape[0] == M2.shape[1] or M.shape[0] > M.shape[1]:
        ctx.discard("the enlarged matrix would be square")
    a, b = Data(), Data()
    a.X, a.dm, a.nl = M, True, L
    b.X, b.dm, b.nl = M2, True, L
    kw = dict(s.kw)
    if kind == "toroidal":
        kw["cocycle_idxs"] = [kw.pop("cocycle_idx")]

    def get(x, **more):
        obj = coords.make(kind, x, ctx, prime=p)
        out, warns = ctx.call_warn(obj.get_coordinates, **kw, **more)
        if case["again"]:
            out, warns = ctx.call_warn(obj.get_coordinates, **kw, **more)
        out = out[0] if kind == "toroidal" else out
        return ctx.array(out, None, "the coordinates"), warns

    cov = ref.partition(M2[em.land], s.r, s.bump)[1]
    ctx.nontrivial(cov.any())
    ctx.label(kind, "far=%d" % case["far"], "barely out" if any(abs(c.min() - s.r) < 1e-8 * s.r for c in cols) else "beyond")
    if kind in ("circular", "toroidal"):
        x, _ = get(a)
        y, warns = get(b)
        warned(ctx, warns, int((~cov).sum()))
        ctx.require(np.all(np.isnan(y[~cov])), "an uncovered point has a defined coordinate")
        ctx.require(np.all(np.isfinite(y[cov])), "a covered point has an undefined coordinate")
        ctx.circle_close(y[old], x, 1e-8, "coordinates of the other points once out-of-reach points are added")
        return
    name = "complex_dim" if kind == "lens" else "proj_dim"
    off = 0 if kind == "lens" else 1
    c0 = cov[old]
    if not c0.any():
        ctx.discard("nothing is covered")
    full = None
    for keep in (L, min(case["keep"], L)):
        more = {name: keep - off, "projective_dim_red_mode": case["mode"]}
        x, _ = get(a, **more)
        y, warns = get(b, **more)
        warned(ctx, warns, int((~cov).sum()))
        ctx.require(np.all(np.isnan(y[~cov])), "an uncovered point has defined coordinates")
        tol = 1e-8
        if keep < L:
            _, gap, short, _ = ref.reduce_rows(full, keep, case["mode"])
            if gap < 1e-5 or short < 1e-4:
                return
            tol += 10 * ref.sensitivity(full, ref.reduce_rows(full, keep, case["mode"])[0], keep, case["mode"])
            if tol > 1e-3:
                return
        ctx.require(np.all(np.isfinite(y[cov])), "a covered point has undefined coordinates")
        full = x[c0]
        ctx.close(y[old][c0] @ y[old][c0].conj().T, full @ full.conj().T, tol, "inner products of the covered points (%d coordinates) once out-of-reach points are added" % keep)


TESTS = [
    Test("partition", strategy, check, quick=3000, thorough=60000, modes=("nojit",),
         # more balls than a byte can number
         fixed=[{"L": L, "N": 700, "seed": L, "what": w, "bump": "linear", "r": r, "dtype": dt, "cls": "circular", "again": 0, "unit": 0}
                for L, w, r, dt in ((300, "generic", 0.3, "float"), (290, "far", 0.3, "float32"), (520, "generic", 0.7, "float"))]
         # thousands of points
         + [{"L": 9, "N": N, "seed": N, "what": w, "bump": "linear", "r": 1.5, "dtype": "float", "cls": "lens", "again": 0, "unit": 0} for N in (3000, 9000) for w in ("integer", "generic", "far")]),
    Test("integer", strategy_int, check_int, quick=700, thorough=16000, modes=("nojit", "jit"), weight=0.85),
    Test("uncovered", strategy_un, check_un, quick=1200, thorough=30000, modes=("nojit", "jit"), weight=0.85),
]
