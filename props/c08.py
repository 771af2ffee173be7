"""C08: equivariant PCA reduces projectively, optimally and equivariantly."""
import contextlib
import io
import os
import numpy as np
from hypothesis import strategies as st
from dreimac.utils import EquivariantPCA
from lib.core import Test
from lib import ref, boot
from lib.strat import SEED, rng, lay, layouts

RULE = (
    "A case is a matrix of unit rows (real or complex; generic, with decaying spectrum, of low rank, sparse like a partition of unity, with repeated rows, "
    "one-hot, with undefined rows), a target dimension and a mode. Non-trivial: some dimension that carries data is dropped, at least 3 rows, and the result "
    "is determined (spectral gaps; projected rows not zero), or the data spans no more dimensions than are kept."
)
ASSUMPTIONS = ["results are compared through the matrix of inner products, with a tolerance of 1e-8 plus ten times the measured conditioning of the reduction",
               "when an eigenvalue is repeated at a cut the projection is not determined and only shape and lengths are checked"]


def unitary(d, cplx, g):
    A = g.normal(size=(d, d)) + (1j * g.normal(size=(d, d)) if cplx else 0)
    return np.linalg.qr(A)[0]


def matrix(c):
    g = rng(c["seed"], 3)
    N, d, z = c["N"], c["d"], c["complex"]

    def normal(*s):
        return g.normal(size=s) + (1j * g.normal(size=s) if z else 0)

    k = c["kind"]
    rank = d
    if k == "fixture":
        return np.load(os.path.join(boot.ROOT, "fixtures", "noconv.npz"))["V"], None
    if k == "generic":
        V = normal(N, d) + c["bias"] * normal(d)
    elif k == "decay":
        V = (normal(N, d) * (0.6 ** np.arange(d))) @ unitary(d, z, g)
    elif k == "lowrank":
        rank = min(d, c["rank"])
        V = normal(N, rank) @ normal(rank, d)
    elif k == "partition":
        V = g.random((N, d)) * (g.random((N, d)) < 0.5)
        V[np.arange(N), g.integers(0, d, N)] += 0.5
        V = np.sqrt(V)
        if z:
            V = V * np.exp(2j * np.pi * g.random((N, d)))
        else:
            V = V * g.choice([-1.0, 1.0], (N, d))
    elif k == "repeated":
        B = normal(max(2, N // 3), d)
        V = B[g.integers(0, len(B), N)] * (1 if not z else np.exp(2j * np.pi * g.random(N))[:, None])
    elif k == "frame":
        # rows on orthogonal lines, differently many on each
        cnt = g.permutation(np.arange(1, d + 1)) + g.integers(0, 3)
        V = np.repeat(unitary(d, z, g), cnt, axis=0)
        V = V[g.permutation(len(V))] * (np.exp(2j * np.pi * g.random(len(V))) if z else g.choice([-1.0, 1.0], len(V)))[:, None]
    elif k == "apart":
        # some rows orthogonal to all the others
        U = unitary(d, z, g)
        V = np.concatenate([normal(3 * N + 3 * d, max(1, d - 1)) @ U[: max(1, d - 1)], np.repeat(U[-1:], 1 + N // 8, axis=0)])
    elif k == "onehot":
        V = np.eye(d)[g.integers(0, max(1, d // 2), N)].astype(complex if z else float)
    V = V / np.linalg.norm(V, axis=1)[:, None]
    return V, rank


KINDS = ["generic", "generic", "decay", "decay", "lowrank", "lowrank", "partition", "partition", "repeated", "onehot"]


def strategy(N=(1, 24), d=(1, 12), kinds=()):
    return st.fixed_dictionaries({
        "N": st.integers(*N), "d": st.integers(*d), "complex": st.booleans(), "seed": SEED,
        "kind": st.sampled_from(KINDS + list(kinds)),
        "bias": st.sampled_from([0.0, 0.5, 2.0]), "rank": st.integers(1, 5), "keep": st.sampled_from([1, 1, 2, 2, 2, 3, 3, 4, 5, 8]),
        "mode": st.sampled_from(["exponential", "direct", "one-by-one"]), "layout": layouts(),
        "nan": st.sampled_from([0, 0, 1, 2]), "verbose": st.sampled_from([False, False, False, True]),
    })


def run(ctx, V, keep, mode, verbose=False):
    with contextlib.redirect_stdout(io.StringIO()):
        out = ctx.call(EquivariantPCA.ppca, V, keep - 1, mode, verbose)
    ctx.require(isinstance(out, dict) and "X" in out and "variance" in out, "the result should hold 'X' and 'variance'")
    return ctx.array(out["X"], (len(V), keep), "the reduced coordinates", kind=None if np.iscomplexobj(V) else "real"), out["variance"]


def check(case, ctx):
    V, rank = matrix(case)
    N, d = V.shape
    keep, mode = min(case["keep"], d), case["mode"]
    if rank is None:
        keep = case["keep"]
    V = lay(V, case["layout"])
    before = V.copy()
    X, var = run(ctx, V, keep, mode, case["verbose"])
    ctx.equal(V, before, "the argument after the call")
    W, gap, short, _ = ref.reduce_rows(V, keep, mode)
    span = int(np.linalg.matrix_rank(V, tol=1e-9))
    iso = span <= keep
    ctx.label(mode, case["kind"], "complex" if np.iscomplexobj(V) else "real", "isometric" if iso else "cut")
    G = X @ X.conj().T
    if iso:
        # nothing is lost, whatever the eigenvalues
        ctx.require(np.all(np.isfinite(X)), "undefined coordinates although nothing is lost")
        ctx.close(G, V @ V.conj().T, 1e-8, "inner products of data spanning %d dimensions, reduced to %d" % (span, keep))
        ctx.nontrivial(N >= 3 and keep < d)
        tol = 1e-8
    else:
        if gap < 1e-5 or short < 1e-4:
            ctx.label("not determined")
            if short > 1e-4:
                fin = np.isfinite(X).all(1)
                ctx.close(np.linalg.norm(X[fin], axis=1), np.ones(fin.sum()), 1e-9, "lengths of the rows")
            return
        tol = 1e-8 + 10 * ref.sensitivity(V, W, keep, mode)
        if tol > 1e-3:
            ctx.label("ill-conditioned")
            return
        ctx.require(np.all(np.isfinite(X)), "undefined coordinates")
        ctx.close(np.linalg.norm(X, axis=1), np.ones(N), 1e-9, "lengths of the rows")
        ctx.close(G, W @ W.conj().T, tol, "inner products of the rows reduced from %d to %d entries in %s mode" % (d, keep, mode))
        ctx.nontrivial(N >= 3)
    ctx.note(rows=N, entries=d, kept=keep, gap=gap, shortest=short)
    if rank is None:
        return
    g = rng(case["seed"], 4)
    # row scalars
    s = np.exp(2j * np.pi * g.random(N)) if np.iscomplexobj(V) else g.choice([-1.0, 1.0], N)
    Y, _ = run(ctx, s[:, None] * V, keep, mode)
    ctx.close(Y @ Y.conj().T, s[:, None] * G * s.conj()[None, :], tol, "inner products after multiplying the rows by unit scalars")
    # change of basis
    Y, _ = run(ctx, V @ unitary(d, np.iscomplexobj(V), g), keep, mode)
    ctx.close(Y @ Y.conj().T, G, tol, "inner products after a unitary change of basis")
    # order of the rows
    q = g.permutation(N)
    Y, _ = run(ctx, V[q], keep, mode)
    ctx.close(Y @ Y.conj().T, G[np.ix_(q, q)], tol, "inner products after permuting the rows")
    # undefined rows
    if case["nan"]:
        at = np.sort(g.integers(0, N + 1, case["nan"]))
        V2 = np.insert(V, at, np.full(d, np.nan, dtype=V.dtype), axis=0)
        if case["seed"] % 2:
            # only one entry of these rows is undefined
            for i in np.nonzero(np.isnan(V2).any(1))[0]:
                j = int(g.integers(0, d))
                V2[i] = V[int(g.integers(0, N))]
                V2[i, j] = np.nan
        bad = np.isnan(V2).any(1)
        Y, _ = run(ctx, V2, keep, mode)
        ctx.close(Y[~bad] @ Y[~bad].conj().T, G, tol, "inner products of the other rows with %d undefined rows added" % case["nan"])
        ctx.require(np.all(np.isnan(Y[bad]).any(1)), "an undefined row has defined coordinates")
        ctx.label("undefined rows")


def strategy_fault():
    return st.tuples(strategy((3, 14), (3, 10)), st.integers(0, 3), st.integers(1, 2)).map(lambda t: dict(t[0], nan=0, at=t[1], times=t[2]))


def check_fault(case, ctx):
    """The eigensolver fails to converge (LAPACK does, for some matrices): the call is refused, or its answer is as good as ever."""
    V, _ = matrix(case)
    keep, mode = min(case["keep"], V.shape[1]), case["mode"]
    W, gap, short, _ = ref.reduce_rows(V, keep, mode)
    if keep >= V.shape[1]:
        ctx.discard("nothing to reduce")
    if gap < 1e-5 or short < 1e-4:
        ctx.discard("not determined")
    tol = 1e-8 + 10 * ref.sensitivity(V, W, keep, mode)
    if tol > 1e-3:
        ctx.discard("ill-conditioned")
    real, n = np.linalg.eigh, [0]

    def eigh(*a, **k):
        n[0] += 1
        if case["at"] < n[0] <= case["at"] + case["times"]:
            raise np.linalg.LinAlgError("Eigenvalues did not converge")
        return real(*a, **k)

    np.linalg.eigh = eigh
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            out = ctx.outcome(EquivariantPCA.ppca, V, keep - 1, mode)
    finally:
        np.linalg.eigh = real
    ctx.label("the solver failed" if n[0] > case["at"] else "no failure", mode, "refused" if out[0] == "raised" else "answered")
    if out[0] == "raised":
        return
    ctx.nontrivial(n[0] > case["at"])
    X = ctx.array(out[1]["X"], (len(V), keep), "the reduced coordinates")
    ctx.close(X @ X.conj().T, W @ W.conj().T, tol, "inner products of the rows reduced from %d to %d entries in %s mode, after a failure of the eigensolver" % (V.shape[1], keep, mode))


def check_variance(case, ctx):
    V, rank = matrix(case)
    N, d = V.shape
    if d < 2:
        ctx.discard("one dimension")
    keep = min(case["keep"], d)
    # how far down the successive hyperplanes are determined
    good, want = 0, []
    P, before = V, 1.0
    for m in range(d - 1, 0, -1):
        # the points whose angles are taken have to be determined, and so has the dropped direction
        lam = np.linalg.svd(P, compute_uv=False) ** 2
        lam = np.concatenate([lam, np.zeros(max(0, P.shape[1] - len(lam)))])
        if (lam[-2] - lam[-1]) < 1e-5 * lam[0] and lam[-2] > 1e-12 * lam[0] or before < 1e-4 or m < d - 1 and ref.sensitivity(V, P, m + 1, "one-by-one") > 1e-7:
            break
        P, _, before, want = ref.reduce_rows(V, m, "one-by-one")
        good += 1
    V2 = V
    if case["nan"]:
        # rows of points that are not covered do not count
        V2 = np.insert(V, [0, N // 2, N][: 1 + case["nan"]], np.nan, axis=0)
        ctx.label("with undefined rows")
    _, got = run(ctx, V2, keep, "one-by-one", case["verbose"])
    got = ctx.array(got, (d - 1,), "the variances", kind="real")
    if not good:
        ctx.discard("not determined")
    ctx.nontrivial(N >= 3 and max(want) > 1e-6)
    ctx.label("dropped=%d" % good, "complex" if np.iscomplexobj(V) else "real", case["kind"])
    ctx.note(variances=want)
    for i in range(good):
        ctx.require(abs(got[-1 - i] - want[i]) <= 1e-6, lambda: "dropping dimension number %d: reported variance %r, the mean squared angle to the hyperplane is %r"
                    % (i + 1, float(got[-1 - i]), want[i]))


FIX = [{"N": 187, "d": 68, "complex": True, "seed": 0, "kind": "fixture", "bias": 0, "rank": 0, "keep": k, "mode": "direct", "layout": "C", "nan": 0, "verbose": False}
       for k in (27, 41)]

TESTS = [
    Test("reduce", strategy, check, quick=6000, thorough=150000, modes=("nojit",), fixed=FIX),
    Test("wide", lambda: strategy((2, 80), (10, 64)), check, quick=400, thorough=10000, modes=("nojit",)),
    Test("many", lambda: strategy((600, 3000), (2, 7)), check, quick=160, thorough=3000, modes=("nojit",)),
    Test("failure", strategy_fault, check_fault, quick=900, thorough=20000, modes=("nojit",)),
    Test("variance", lambda: strategy(kinds=("frame", "apart")), check_variance, quick=1500, thorough=40000, modes=("nojit",)),
    Test("variance-wide", lambda: strategy((40, 90), (12, 40)), check_variance, quick=200, thorough=5000, modes=("nojit",)),
]
