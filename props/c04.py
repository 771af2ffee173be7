"""C04: toroidal coordinates are a unimodular, lattice-reduced change of basis."""
import itertools
import numpy as np
from hypothesis import strategies as st
from lib.core import Test
from lib import data, ref, coords

RULE = (
    "A case is a metric data set, a prime, a selection of 1 to 5 classes (in any order) and a scale. Non-trivial: at least two classes, and "
    "the change of basis is not the identity or the Gram matrix has an off-diagonal entry above 1e-3 of its diagonal (single: always). "
    "Discarded (counted): selections that do not overlap, lifts that are not cocycles, ties, ill-conditioned systems."
)
ASSUMPTIONS = ["the change of basis and Gram matrices are those recorded on the object (_change_basis, _original_gram_matrix, _gram_matrix)",
               "LLL conditions are checked up to a relative tolerance of 1e-4 plus the solver error"]

SPACES = ["clifford", "clifford", "skewtorus", "skewtorus", "skewtorus", "fig8", "twocircles", "threecircles", "threecircles", "graph", "graph", "random", "klein", "flag:theta", "flag:theta",
          "flag:torus", "flag:torus", "flag:wedge_theta", "flag:random", "flag:wedge_cycle", "rp2"]


def strategy(n=(10, 40), spaces=SPACES, sel=(2, 5), wrap=lambda r: r):
    return st.fixed_dictionaries({
        "data": wrap(data.recipe(spaces, n=n, pres=("points", "square", "square", "rect"))),
        "par": coords.params(perc=st.sampled_from([0.5, 0.9, 0.3, 0.75, 0.95])),
        "sel": st.lists(st.integers(0, 6), min_size=sel[0], max_size=sel[1]),
        "long": st.booleans(),
        "prime": st.sampled_from([41, 41, 3, 5, 7, 127]),
    })


def pick(case, em, ctx):
    n = em.n_classes()
    if n < 2:
        ctx.discard("fewer than two classes")
    pers = em.dgms[1][:, 1] - em.dgms[1][:, 0]
    pool = list(range(n))
    if case["long"]:
        pool = [i for i in pool if pers[i] > 0.4 * pers[0]]
    idxs = []
    for k in case["sel"]:
        i = pool[k % len(pool)]
        if i in idxs:
            continue
        c = idxs + [i]
        if max(em.dgms[1][j][0] for j in c) < min(em.dgms[1][j][1] for j in c) and np.isfinite(em.dgms[1][i][1]):
            idxs = c
    if len(idxs) < 2:
        ctx.discard("no overlapping classes")
    if any(em.tied(1, i) for i in idxs):
        ctx.discard("tied persistence")
    return idxs


def scale(case, em, idxs, ctx):
    B, D = float(max(em.dgms[1][i][0] for i in idxs)), float(min(em.dgms[1][i][1] for i in idxs))
    std = case["par"]["std"]
    rr = ref.radius(B, D, case["par"]["perc"], std)
    if rr is None:
        std = False
        rr = ref.radius(B, D, case["par"]["perc"], False)
    if ref.margin(em, *rr):
        ctx.discard("a distance ties with the scale")
    return rr[0], rr[1], std


def gram_schmidt(G):
    """mu and squared norms of the Gram-Schmidt basis, from the Gram matrix."""
    k = len(G)
    mu, r = np.eye(k), np.zeros((k, k))
    B = np.zeros(k)
    for i in range(k):
        for j in range(i):
            r[i, j] = G[i, j] - sum(mu[j, t] * r[i, t] for t in range(j))
            mu[i, j] = r[i, j] / B[j]
        B[i] = G[i, i] - sum(mu[i, t] * r[i, t] for t in range(i))
    return mu, B


def guess_basis(out, fs, cov, comp, tol):
    """Without a recorded change of basis: small integer combinations that explain the output."""
    k = len(fs)
    M = []
    for o in out:
        best = None
        for m in sorted(itertools.product(range(-3, 4), repeat=k), key=lambda v: sum(map(abs, v))):
            f = sum(a * x for a, x in zip(m, fs))
            if ref.compare_circle(o[cov], f[cov], comp[cov], tol)[0] <= tol:
                best = m
                break
        if best is None:
            return None
        M.append(best)
    return np.array(M, dtype=float)


def check(case, ctx):
    p = case["prime"]
    d = data.build(case["data"])
    em = ref.EM(d.X, d.nl, d.dm, p)
    if em.fragile:
        ctx.discard("tied farthest-point choice")
    if len(np.unique(em.land)) < em.L:
        ctx.discard("repeated landmarks")
    idxs = pick(case, em, ctx)
    r, R, std = scale(case, em, idxs, ctx)
    A = ref.adjacency(em.DLL, R)
    Hs = []
    for i in idxs:
        N = ref.cochain1(ref.lift(em.coc[1][i], p), em.L)
        if not ref.is_cocycle1(N, A):
            ctx.discard("the balanced lift is not a cocycle")
        Hs.append(ref.Harmonic(N, em.DLL, R))
    err = max(H.err for H in Hs)
    if case["par"]["bump"] == "exp" and coords.underflows(em.DLD, r):
        ctx.discard("the bump function underflows")
    w, cov = ref.partition(em.DLD, r, case["par"]["bump"])
    first = np.argmax(em.DLD < r, 0)
    comp = ref.components(A)[first]
    fs = [ref.circle_map(H, w, first) for H in Hs]
    G = np.array([[float(a.theta @ b.theta) for b in Hs] for a in Hs])
    if np.linalg.eigvalsh(G)[0] < 1e-3 * G.max():
        ctx.discard("nearly dependent classes")
    if err > 1e-4 or not cov.any():
        ctx.discard("ill-conditioned")
    tc = coords.make("toroidal", d, ctx, prime=p)
    out = ctx.call(tc.get_coordinates, perc=case["par"]["perc"], cocycle_idxs=idxs, partunity_fn=coords.bump(case["par"]["bump"]), standard_range=std)
    ctx.require(len(out) == len(idxs), lambda: "%d coordinates for %d classes" % (len(out), len(idxs)))
    out = [ctx.array(o, (em.N,), "a toroidal coordinate", kind="real") for o in out]
    for o in out:
        ctx.require(np.all(np.isfinite(o[cov])) and np.all((o[cov] >= 0) & (o[cov] <= 2 * np.pi)), "a toroidal coordinate lies outside [0, 2*pi]")
    k = len(idxs)
    M = getattr(tc, "_change_basis", None)
    if M is None:
        M = guess_basis(out, fs, cov, comp, 1e-3)
        if M is None:
            ctx.discard("no recorded change of basis")
    M = ctx.array(M, (k, k), "the recorded change of basis", kind="real", finite=True)
    ctx.require(np.all(np.abs(M - np.rint(M)) < 1e-9), lambda: "the change of basis is not integer: %s" % M.tolist())
    M = np.rint(M)
    det = float(np.linalg.det(M))
    ctx.require(abs(abs(det) - 1) < 1e-6, lambda: "the change of basis has determinant %g: %s" % (det, M.tolist()))
    dev = 0.0
    for a in range(k):
        f = sum(M[a, i] * fs[i] for i in range(k))
        tol = max(5e-5, 16 * np.pi * err * np.abs(M[a]).sum())
        if tol > 0.05:
            continue
        dv, where = ref.compare_circle(out[a][cov], f[cov], comp[cov], tol)
        dev = max(dev, dv)
        ctx.require(dv <= tol, lambda: "toroidal coordinate %d is off by %.3g rad from the combination %s of the circle maps of classes %s (tolerance %.2g)"
                    % (a, dv, M[a].tolist(), idxs, tol))
    G2 = M @ G @ M.T
    # errors of the harmonic representatives enter quadratically, since they are minimal
    gt = 1e-4 * np.abs(G).max() * max(1.0, np.abs(M).max() ** 2 * k) + 10 * err
    g = getattr(tc, "_original_gram_matrix", None)
    if g is not None:
        ctx.close(ctx.array(g, (k, k), "the Gram matrix of the input maps"), G, gt, "the Gram matrix of the input maps")
    g = getattr(tc, "_gram_matrix", None)
    if g is not None:
        ctx.close(ctx.array(g, (k, k), "the Gram matrix of the output maps"), G2, gt, "the Gram matrix of the output maps")
    mu, B = gram_schmidt(G2)
    e = gt / B.min()
    off = np.abs(np.tril(mu, -1)).max()
    ctx.require(off <= 0.5 + 2 * e, lambda: "not size-reduced: coefficient %.4f; Gram matrix of the output %s" % (off, G2.tolist()))
    for i in range(1, k):
        ctx.require(B[i] >= (0.75 - mu[i, i - 1] ** 2) * B[i - 1] - 4 * gt, lambda: "the Lovasz condition fails between coordinates %d and %d; Gram matrix of the output %s" % (i - 1, i, G2.tolist()))
    ident = np.array_equal(M, np.eye(k))
    ctx.nontrivial(not ident or np.abs(G - np.diag(np.diag(G))).max() > 1e-3 * np.diag(G).max())
    ctx.label("k=%d" % k, "p=%d" % p, "space=" + case["data"]["space"], "identity" if ident else ("signed permutation" if np.abs(M).sum() == k else "genuine reduction"))
    mu0, B0 = gram_schmidt(G)
    if any(B0[i] < (0.75 - mu0[i, i - 1] ** 2) * B0[i - 1] for i in range(1, k)):
        ctx.label("input fails Lovasz")
    ctx.note(classes=idxs, change=M.astype(int).tolist(), gram=np.round(G, 4).tolist(), deviation=dev)


def check_single(case, ctx):
    p = case["prime"]
    d = data.build(case["data"])
    em = ref.EM(d.X, d.nl, d.dm, p)
    s = coords.setting(d, em, case["par"], ctx)
    if not ref.has_integral_lift(em.coc[1][s.idx], p, s.A)[0]:
        ctx.discard("no integer lift (C03)")
    cc = coords.make("circular", d, ctx, prime=p)
    tc = coords.make("toroidal", d, ctx, prime=p)
    a = ctx.call(cc.get_coordinates, **s.kw)
    kw = dict(s.kw)
    kw["cocycle_idxs"] = [kw.pop("cocycle_idx")]
    b = ctx.call(tc.get_coordinates, **kw)
    ctx.require(len(b) == 1, "one class should give one coordinate")
    ctx.nontrivial()
    ctx.circle_close(ctx.array(b[0], (em.N,), "coordinate"), ctx.array(a, (em.N,), "coordinate"), 1e-6, "toroidal coordinate of one class against the circular one")
    if s.idx == 0 and d.n <= 30:
        # the default selection is the most persistent class
        kw.pop("cocycle_idxs")
        b2 = ctx.call(tc.get_coordinates, **kw)
        ctx.circle_close(ctx.array(b2[0], (em.N,), "coordinate"), a, 1e-6, "default selection")


TESTS = [
    Test("basis", strategy, check, quick=1500, thorough=40000, modes=("jit", "nojit"), weight=0.93),
    Test("webs", lambda: strategy(spaces=["flag:web", "flag:web", "flag:web", "flag:wedge_theta", "flag:random"], sel=(3, 6)), check, quick=2500, thorough=80000, modes=("nojit",)),
    Test("single", lambda: st.fixed_dictionaries({"data": data.recipe(coords.FLAT, n=(6, 30)), "par": coords.params(), "prime": st.sampled_from([41, 2, 3, 5])}),
         check_single, quick=300, thorough=5000, modes=("jit", "nojit"), weight=0.9),
    Test("many", lambda: strategy((10, 24), wrap=data.many), check, quick=50, thorough=1000, modes=("jit", "nojit")),
    Test("larger", lambda: strategy((60, 140), ["clifford", "skewtorus", "threecircles", "graph", "klein", "random"]), check, quick=50, thorough=1200, modes=("jit",)),
]
