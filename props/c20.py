"""C20: circle-map arithmetic."""
import numpy as np
from hypothesis import strategies as st
from lib.core import Test
from lib.strat import SEED, rng, mix, lay, layouts, grid, fl, sizes
from dreimac import CircleMapUtils as C

RULE = (
    "circle-valued arrays (explicit angles incl. 0 and 2*pi, uniform, clustered, nearly constant, grids; 1 to 400 points; also 2-dimensional arrays for offset), "
    "offsets in [-5, 5], integer matrices with entries up to 100000 given as arrays or (nested) lists. Non-trivial: at least 2 different angles "
    "and a non-zero offset / a matrix with at least two non-zero entries."
)
ASSUMPTIONS = ["angles are given in [0, 2*pi]"]
TAU = 2 * np.pi


def angles(case, g=None):
    g = rng(case["seed"]) if g is None else g
    n = case["n"]
    k = case["kind"]
    if k == "explicit":
        a = np.array((case["vals"] * (n + 1))[:n], dtype=float) / 24 * TAU
        a = np.clip(a, 0, TAU)
    elif k == "uniform":
        a = g.random(n) * TAU
    elif k == "cluster":
        c = g.random() * TAU
        a = np.where(g.random(n) < 0.6, c + g.normal(size=n) * 0.02, g.random(n) * TAU) % TAU
    elif k == "drift":
        # the later points lie elsewhere than the earlier ones
        c = g.random() * TAU
        a = np.where(np.arange(n) < 0.65 * n, g.random(n) * TAU, (c + g.normal(size=n) * 0.02) % TAU)
    elif k == "constant":
        a = np.full(n, g.random() * TAU)
    elif k == "edges":
        a = g.choice([0.0, TAU, np.nextafter(TAU, 0), 1e-300, np.pi], n)
    else:
        a = np.arange(n) / n * TAU
    return a


def base(extra=None):
    d = {"n": sizes(mix(st.integers(1, 8), st.integers(1, 400)), 8000), "seed": SEED, "vals": st.lists(st.integers(0, 24), min_size=1, max_size=10),
         "kind": st.sampled_from(["explicit", "uniform", "cluster", "drift", "constant", "edges", "grid"]), "layout": layouts()}
    d.update(extra or {})
    return st.fixed_dictionaries(d)


def in_range(ctx, a, what):
    ctx.require(np.all((a >= 0) & (a <= TAU)), lambda: "%s outside [0, 2*pi]: %s" % (what, a[~((a >= 0) & (a <= TAU))][:3]))


def offset_strategy():
    return base({"o": mix(grid(-5, 5, 8), fl(-5, 5), st.integers(-3, 3).map(float)), "o2": mix(grid(-2, 2, 6), fl(0, 1)), "rows": st.sampled_from([0, 0, 2])})


def check_offset(case, ctx):
    a = angles(case)
    if case["rows"]:
        a = np.stack([a, a[::-1]])
    a = lay(a, case["layout"])
    a0 = a.copy()
    o, o2 = case["o"], case["o2"]
    r = ctx.array(ctx.call(C.offset, a, o), a0.shape, "offset", kind="real", finite=True)
    ctx.equal(np.asarray(a), a0, "the argument was modified:")
    in_range(ctx, r, "offset")
    ctx.circle_close(r, a0 + o * TAU, 1e-12 * (1 + abs(o)) * 10, "offset by %r" % o)
    r2 = ctx.call(C.offset, np.array(r), o2)
    ctx.circle_close(r2, ctx.call(C.offset, a0, o + o2), 1e-12 * 100, "two offsets against their sum")
    ctx.circle_close(ctx.call(C.offset, a0, round(o)), a0, 1e-12 * 100, "whole turns")
    ctx.nontrivial(len(np.unique(a0)) >= 2 and o % 1 != 0)


def lc_strategy():
    return base({"k": st.integers(1, 5), "l": st.integers(1, 5), "q": st.integers(1, 4), "big": st.sampled_from([1, 3, 50, 400, 100000]),
                 "form": st.sampled_from(["array", "list", "listrows", "floatarray"]), "single": st.booleans()})


def check_lc(case, ctx):
    g = rng(case["seed"], 1)
    k, l = case["k"], case["l"]
    X = np.stack([angles(case, rng(case["seed"], 10 + i)) for i in range(k)])
    if case["kind"] in ("explicit", "grid"):
        X = np.stack([np.roll(X[i], i) for i in range(k)])
    b = case["big"]
    A = g.integers(-b, b + 1, size=(l, k))
    B = g.integers(-min(b, 50), min(b, 50) + 1, size=(case["q"], l))
    Xin = lay(X, case["layout"])
    X0, A0 = X.copy(), A.copy()

    def give(x, a):
        f = case["form"]
        if f == "list":
            return [list(map(float, r)) for r in x], [list(map(int, r)) if np.ndim(r) else int(r) for r in a]
        if f == "listrows":
            return [np.array(r) for r in x], np.array(a)
        if f == "floatarray":
            return x, np.array(a, dtype=float)
        return x, np.array(a)

    tol = 1e-12 * (10 + np.abs(A).sum() + np.abs(B).sum() * (1 + np.abs(A).sum()))
    xi, ai = give(Xin, A)
    R = ctx.array(ctx.call(C.linear_combination, xi, ai), (l, X.shape[1]), "linear combinations", kind="real", finite=True)
    in_range(ctx, R, "linear combination")
    ctx.equal(np.asarray(Xin), X0, "the circle maps were modified:")
    ctx.equal(np.asarray(ai), A0, "the matrix was modified:")
    ctx.circle_close(R, A @ X, tol, "linear combinations")
    # one combination at a time
    for i in range(l):
        xi, ai = give(X, A[i])
        r = ctx.array(ctx.call(C.linear_combination, xi, ai), (X.shape[1],), "a single linear combination", kind="real", finite=True)
        in_range(ctx, r, "linear combination")
        ctx.circle_close(r, R[i], tol, "row %d alone against all rows" % i)
        if case["single"]:
            break
    # composition
    ctx.circle_close(ctx.call(C.linear_combination, R, B), ctx.call(C.linear_combination, X, B @ A), tol, "composition")
    # whole turns of the inputs
    turns = g.integers(-2, 3, size=X.shape)
    ctx.circle_close(ctx.call(C.linear_combination, X + TAU * turns, A), R, tol * 4, "inputs changed by whole turns")
    # additivity
    A2 = g.integers(-b, b + 1, size=(l, k))
    ctx.circle_close(ctx.call(C.linear_combination, X, A + A2), R + ctx.call(C.linear_combination, X, A2), tol * 4, "additivity in the matrix")
    ctx.nontrivial(np.count_nonzero(A) >= 2 and len(np.unique(X)) >= 2)
    ctx.label(case["form"], "k=%d" % k)


def check_center(case, ctx):
    a = lay(angles(case), case["layout"])
    a0 = a.copy()
    r = ctx.array(ctx.call(C.center, a), a0.shape, "center", kind="real", finite=True)
    ctx.equal(np.asarray(a), a0, "the argument was modified:")
    in_range(ctx, r, "center")
    d = r - a0
    ctx.circle_close(d, np.full_like(d, d[0]), 1e-9, "the rotation applied to each point")
    # within one fiftieth of a turn of pi there are at least half as many points as in any window of one fiftieth of the range
    w = (a0.max() - a0.min()) / 50 * (1 + 1e-9)
    s = np.sort(a0)
    most = max(int(np.searchsorted(s, x + w, side="right") - i) for i, x in enumerate(s))
    near = int(np.sum(np.abs(r - np.pi) <= TAU / 50 + 1e-6))
    ctx.require(2 * near >= most, lambda: "only %d points near pi, while some arc of width %.3f holds %d" % (near, w, most))
    ctx.nontrivial(len(np.unique(a0)) >= 3)
    ctx.label(case["kind"])
    ctx.note(near_pi=near, densest=most)


TESTS = [
    Test("offset", offset_strategy, check_offset, quick=5000, thorough=150000),
    Test("linear_combination", lc_strategy, check_lc, quick=4000, thorough=120000),
    Test("center", base, check_center, quick=4000, thorough=120000),
]
