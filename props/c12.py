"""C12: coordinates depend only on the metric data, not on its presentation."""
import numpy as np
from hypothesis import strategies as st
from lib.core import Test
from lib import data, ref, coords
from lib.data import Data
from lib.strat import SEED, rng, lay

RULE = (
    "A case is a data set in general position (no two landmark distances within 1e-6), a kind of coordinate, parameters, and two presentations of it: point cloud, square matrix, "
    "landmarks-by-points matrix, the cloud moved by an isometry of a space of any dimension, everything rescaled, another memory layout, the non-landmark points in another order, or some of them left out. "
    "Non-trivial: the presentations differ, there are non-landmark points or the relation does not need them, and coordinates exist."
)
ASSUMPTIONS = ["circular and toroidal coordinates are compared up to one rotation per component of the landmark complex, projective and lens ones up to a fixed unitary map and unit scalars (roots of unity)",
               "the balanced lift is a cocycle (otherwise the repaired lift is not unique)"]

KINDS = ["circular", "circular", "toroidal", "projective", "lens", "cp"]
EXACT = ["reorder", "subset", "layout"]


def strategy():
    return st.fixed_dictionaries({
        "kind": st.sampled_from(KINDS),
        "data": data.recipe([s for s in coords.FLAT if s not in ("lattice",)], n=(6, 22), pres=("points",), extra={"noise": st.sampled_from([0.1, 0.3, 0.6])}),
        "solid": data.recipe(coords.SOLID, n=(6, 12), pres=("points",), extra={"noise": st.sampled_from([0.1, 0.3, 0.6])}),
        "par": coords.params(perc=st.sampled_from([0.5, 0.9, 0.25, 0.75, 0.95])),
        "sel": st.lists(st.integers(0, 4), min_size=1, max_size=3),
        "prime": st.sampled_from([41, 3, 5, 7]),
        "how": st.sampled_from(["square", "rect", "rect", "isometry", "scale", "scale", "layout", "reorder", "reorder", "subset", "subset"]),
        "base": st.sampled_from(["points", "points", "square", "rect"]),
        "seed": SEED, "keep": st.sampled_from([1, 2, 3, 0, -1]), "mode": st.sampled_from(["exponential", "direct", "one-by-one"]),
        "factor": st.sampled_from([0.01, 0.5, 2.0, 3.7, 1000.0, 1e-8, 1e-12, 1e7]), "rows": st.sampled_from([0, 0, 3, 8]),
    })


def rect(M, land, more, g):
    """Rows: the landmarks and possibly further points, of which the farthest-point choice makes the same landmarks."""
    rest = np.setdiff1d(np.arange(M.shape[1]), land)
    if more and len(rest) > 1:
        q = g.permutation(rest)
        more = min(more, len(rest) - 1)
        rows = np.concatenate([land[:1], g.permutation(np.concatenate([land[1:], q[:more]]))])
        rest = np.sort(q[more:])
    else:
        rows = land
    o = np.concatenate([rows, rest])
    return M[np.ix_(rows, o)], o


def present(how, X, M, land, nl, more=0, g=None):
    """Data in a presentation, and the original index of each of its points."""
    d = Data()
    n = M.shape[1]
    if how == "points":
        d.X, d.dm, d.nl, order = X, False, nl, np.arange(n)
    elif how == "square":
        d.X, d.dm, d.nl, order = M, True, nl, np.arange(n)
    else:
        A, order = rect(M, land, more, g)
        d.X, d.dm, d.nl = A, True, nl
    return d, order


def check(case, ctx):
    kind, how, base = case["kind"], case["how"], case["base"]
    k = 2 if kind == "cp" else 1
    p = 2 if kind == "projective" else case["prime"]
    rec = dict(case["solid"] if k == 2 else case["data"])
    metric = rec["space"] in ("graph", "cyclegraph", "rp2", "skewtorus") or rec["space"].startswith("flag:")
    if metric:
        # points between the given ones, as a square matrix through the sup norm
        rec["pres"] = "rect"
    d0 = data.build(rec)
    g = rng(case["seed"], 31)
    if d0.dm:
        A = np.array(d0.X, dtype=float)
        P = A.T
        M = np.abs(P[:, None, :] - P[None, :, :]).max(-1)
        X = None
        nl = A.shape[0]
        if base == "points":
            base = "square"
    else:
        X, nl = np.array(d0.X, dtype=float), d0.nl
        M = data.pdist(X)
    if how in ("square", "rect") and how == base:
        base = "points" if X is not None else ("square" if how == "rect" else "rect")
    if how == "isometry":
        if X is None:
            ctx.discard("not a point cloud")
        base = "points"
    em = ref.EM(M, nl, True, p, maxdim=k)
    off = em.DLL[~np.eye(em.L, dtype=bool)]
    v = np.unique(np.round(np.sort(em.DLL[np.triu_indices(em.L, 1)]), 12))
    if len(v) < em.L * (em.L - 1) // 2 or np.diff(v).min() < 1e-6 * v[-1]:
        ctx.discard("not in general position")
    # the farthest-point choice must not be a matter of rounding
    cur = em.DLD[0].copy()
    for i in range(1, em.L):
        if em.L < em.N and (cur >= cur.max() * (1 - 1e-6)).sum() > 1:
            ctx.discard("tied farthest-point choice")
        cur = np.minimum(cur, em.DLD[i])
    s = coords.setting(None, em, case["par"], ctx, k=k)
    idxs = [s.idx]
    kw = dict(s.kw)
    if kind == "toroidal":
        idxs = list(dict.fromkeys([s.idx] + [i % em.n_classes() for i in case["sel"]]))
        B, Dt = max(em.dgms[1][i][0] for i in idxs), min(em.dgms[1][i][1] for i in idxs)
        rr = ref.radius(B, Dt, s.perc, s.std) if B < Dt else None
        if rr is None or any(em.tied(1, i) for i in idxs):
            idxs = [s.idx]
        else:
            s.r, s.R = (float(x) for x in rr)
            if ref.margin(em, s.r, s.R):
                ctx.discard("a distance ties with the scale")
            if s.bump == "exp" and coords.underflows(em.DLD, s.r):
                ctx.discard("the bump function underflows")
            s.w, s.cov = ref.partition(em.DLD, s.r, s.bump)
            s.first = np.argmax(em.DLD < s.r, 0)
            s.A = ref.adjacency(em.DLL, s.R)
            s.comp = ref.components(s.A)
        kw["cocycle_idxs"] = idxs
        del kw["cocycle_idx"]
    # square roots of small bump values amplify rounding in the distances
    tol = 1e-8
    if how not in EXACT:
        # births and deaths are single-precision numbers, so the scale changes a little
        roots = [np.sqrt(ref.partition(em.DLD, s.r * (1 + h), s.bump)[0]) for h in (-2e-7, 0, 2e-7)]
        tol = 1e-7 + 4 * max(np.nan_to_num(np.abs(a - roots[1])).sum(0).max() for a in roots)
    if kind in ("circular", "toroidal", "cp"):
        for i in idxs:
            if not ref.has_integral_lift(em.coc[k][i], p, s.A, k)[1]:
                ctx.discard("the balanced lift is not a cocycle")
        if k == 1:
            err = max(ref.Harmonic(ref.cochain1(ref.lift(em.coc[1][i], p), em.L), em.DLL, s.R).err for i in idxs)
            tol += max(2e-5, 32 * np.pi * err * (9 if kind == "toroidal" else 1))
        else:
            tol += max(2e-6, 80 * ref.Harmonic2(ref.lift(s.c, p), em.DLL, s.R).err)
    if tol > 0.02:
        ctx.discard("ill-conditioned")
    land = em.land
    others = np.setdiff1d(np.arange(em.N), land)
    if how in ("reorder", "subset") and len(others) < 2:
        ctx.discard("no points besides the landmarks")
    a, oa = present(base, X, M, land, nl, case["rows"], g)
    # the other presentation
    inv, X2, M2, keep_pts = 1.0, X, M, np.arange(em.N)
    target = base
    land2 = land
    if how in ("square", "rect"):
        target = how
    elif how == "isometry":
        dim = X.shape[1] + int(g.integers(0, 3))
        Q = np.linalg.qr(g.normal(size=(dim, dim)))[0]
        X2 = np.concatenate([X, np.zeros((len(X), dim - X.shape[1]))], 1) @ Q + g.normal(size=dim) * float(np.abs(X).max()) * g.choice([0, 1, 10])
    elif how == "scale":
        X2, M2 = (None if X is None else X * case["factor"]), M * case["factor"]
    elif how in ("reorder", "subset"):
        # landmarks stay first to last in their places relative to each other
        sel = others if how == "reorder" else np.sort(g.choice(others, int(g.integers(1, len(others))), replace=False))
        if how == "reorder":
            q = g.permutation(sel)
        else:
            q = sel
        if base == "points" or base == "square":
            if how == "reorder":
                new = np.arange(em.N)
                new[others] = q
                # position i now holds the old point new[i]
                keep_pts = new
            else:
                keep_pts = np.sort(np.concatenate([land, q]))
            X2 = None if X is None else X[keep_pts]
            M2 = M[np.ix_(keep_pts, keep_pts)]
            where = {int(v): i for i, v in enumerate(keep_pts)}
            land2 = np.array([where[int(v)] for v in land])
        else:
            keep_pts = np.concatenate([land, q])
    if how in ("reorder", "subset") and base == "rect":
        b = Data()
        b.X, b.dm, b.nl = M[np.ix_(land, keep_pts)], True, nl
        ob = keep_pts
        if b.X.shape[0] == b.X.shape[1]:
            ctx.discard("nothing left")
    else:
        b, ob = present(target, X2, M2, land2, nl, case["rows"], g)
        ob = keep_pts[ob]
        if how == "layout":
            b.X = lay(b.X, ["F", "strided"][int(g.integers(0, 2))])
    ctx.nontrivial()
    ctx.label(kind, "%s -> %s" % (base, how), "space=" + rec["space"], "classes=%d" % len(idxs), "std" if s.std else "rips")
    ctx.note(kind=kind, base=base, how=how, landmarks=int(em.L), points=int(em.N))
    name = {"lens": "complex_dim", "projective": "proj_dim", "cp": "proj_dim"}.get(kind)
    oa_pos = {int(v): i for i, v in enumerate(oa)}
    at = np.array([oa_pos[int(v)] for v in ob])     # position in the first presentation of each point of the second

    def get(x, **more):
        obj = coords.make(kind, x, ctx, prime=p)
        return ctx.call(obj.get_coordinates, **kw, **more), obj

    if k == 1 and name is None:
        x, o1 = get(a)
        y, o2 = get(b)
        x, y = np.atleast_2d(np.array(x)), np.atleast_2d(np.array(y))
        ctx.require(x.shape == (len(idxs), em.N) and y.shape == (len(idxs), len(ob)), lambda: "coordinates of shapes %s and %s" % (x.shape, y.shape))
        if len(idxs) > 1 and not (hasattr(o1, "_change_basis") and hasattr(o2, "_change_basis") and np.array_equal(np.rint(o1._change_basis), np.rint(o2._change_basis))):
            ctx.discard("another change of basis")
        x = x[:, at]
        cov = s.cov[ob]
        ctx.require(np.array_equal(np.isnan(y), np.isnan(x)), "other points have undefined coordinates")
        if how in EXACT:
            ctx.circle_close(y, x, 1e-8, "coordinates after '%s'" % how)
            return
        comp = s.comp[s.first[ob]]
        for j in range(len(idxs)):
            dev, where = ref.compare_circle(y[j][cov], x[j][cov] / (2 * np.pi), comp[cov], tol)
            ctx.require(dev <= tol, lambda: "%s coordinates of '%s' and '%s' presentations differ by %.3g rad (tolerance %.2g)" % (kind, base, how, dev, tol))
        return
    q = {"projective": 2, "lens": p, "cp": None}[kind]
    full, cov = None, s.cov[ob]
    if cov.sum() < 2:
        ctx.discard("nothing is covered")
    kk = case["keep"]
    kk = max(1, min(em.L, kk if kk > 0 else (em.L // 2 if kk == 0 else em.L + kk)))
    for keep in (em.L, kk):
        more = {name: keep - (kind != "lens"), "projective_dim_red_mode": case["mode"]}
        x, y = get(a, **more)[0], get(b, **more)[0]
        x, y = ctx.array(x, (em.N, keep), "coordinates")[at], ctx.array(y, (len(ob), keep), "coordinates")
        t = tol
        if keep < em.L:
            if how == "subset":
                # the reduction does depend on the other points
                return
            W, gap, short, _ = ref.reduce_rows(full, keep, case["mode"])
            if gap < 1e-5 or short < 1e-4:
                return
            t = 1e-8 + 10 * ref.sensitivity(full, W, keep, case["mode"], eps=1e-12 if how in EXACT else tol)
            if t > 1e-3:
                return
            ctx.label("reduction compared")
        ctx.require(np.array_equal(np.isnan(y).any(1), np.isnan(x).any(1)), "other points have undefined coordinates")
        err = ref.gram_match(y[cov], x[cov], q, t)
        ctx.require(err is None, lambda: "%s coordinates (%d entries) of '%s' and '%s' presentations: %s" % (kind, keep, base, how, err))
        if keep == em.L:
            full = x[cov]


TESTS = [
    Test("relations", strategy, check, quick=2600, thorough=60000, modes=("nojit", "jit"), weight=0.85),
]
