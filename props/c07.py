"""C07: complex projective coordinates represent the selected degree-2 class."""
import numpy as np
from hypothesis import strategies as st
from lib.core import Test
from lib import data, ref, coords, plaq, roots
from lib.data import Data

RULE = (
    "rows: a metric data set with a class of degree 2 whose balanced lift is a cocycle, a scale, a target dimension and a reduction mode; the coordinates, "
    "unreduced and reduced, are compared with a reference map through all inner products of rows, up to one unit scalar per row. chern: the data set is the "
    "landmarks with samples of every landmark triangle, and the Chern class read off the coordinates is compared with the class on all landmark triangles "
    "(exactly for lifts that are cocycles, modulo the prime otherwise). Non-trivial: the harmonic representative does not vanish (rows), the class is not a "
    "coboundary on the sampled triangles (chern)."
)
ASSUMPTIONS = ["asking for as many coordinates as landmarks leaves the map unreduced (up to a fixed unitary map)",
               "the least-squares solver is accurate to 1e-6 (relative), which bounds the phases through the smallest singular value",
               "sampling is refined until neighbouring samples are close"]
MODES = ["exponential", "exponential", "direct", "one-by-one"]
SPACES = coords.SOLID + ["flag:susp_cycle", "flag:octahedron", "flag:wedge_octahedron", "flag:susp_rp2"]


def strategy(n=(8, 26), spaces=SPACES, snap=st.none(), wrap=lambda r: r, frac=True):
    return st.fixed_dictionaries({
        "snap": snap,
        "data": wrap(data.recipe(spaces, n=n, frac=frac, extra={"even": st.booleans()})),
        "par": coords.params(perc=st.sampled_from([0.5, 0.5, 0.9, 0.1, 0.25, 0.95])),
        "prime": st.sampled_from([41, 41, 41, 3, 5, 7, 47, 127]),
        "keep": st.sampled_from([1, 2, 2, 2, 3, 4, 6, 0, 0, -1, -1, -2, -3]),
        "mode": st.sampled_from(MODES),
    })


def check(case, ctx):
    p = case["prime"]
    d = data.build(case["data"])
    em = ref.EM(d.X, d.nl, d.dm, p, maxdim=2)
    par = case["par"]
    if case.get("snap"):
        d, em, par = coords.snap(d, em, case, ctx, p, k=2)
    s = coords.setting(d, em, par, ctx, k=2)
    L, N, i = em.L, em.N, s.cov
    if i.sum() < 2:
        ctx.discard("nothing is covered")
    # a matter of rounding only when the lift does not need a repair (C03)
    if not ref.has_integral_lift(s.c, p, s.A, 2)[1]:
        ctx.discard("the balanced lift is not a cocycle")
    H = ref.Harmonic2(ref.lift(s.c, p), em.DLL, s.R)
    V0 = ref.cp_map(H, s.w, s.first)[i]
    sub = data.some(len(V0))
    tol = max(2e-6, 40 * H.err)
    if tol > 0.02:
        ctx.discard("ill-conditioned")
    obj = coords.make("cp", d, ctx, prime=p)

    def matrix(keep, mode):
        out = ctx.call(obj.get_coordinates, proj_dim=keep - 1, projective_dim_red_mode=mode, **s.kw)
        out = ctx.array(out, (N, keep), "the coordinates")
        ctx.require(np.all(np.isfinite(out[i])), "a covered point has undefined coordinates")
        nr = np.linalg.norm(out[i], axis=1)
        ctx.require(np.all(np.abs(nr - 1) < 1e-8), lambda: "a coordinate vector has length %r" % float(nr[np.argmax(np.abs(nr - 1))]))
        return out[i]

    raw = matrix(L, case["mode"])
    err = ref.gram_match(raw[sub], V0[sub], None, tol)
    ctx.require(err is None, lambda: "before reduction (class %d, scale %.6g): %s" % (s.idx, s.R, err))
    ctx.nontrivial(np.abs(H.eta).max() > 1e-3 and i.sum() >= 4)
    ctx.label("p=%d" % p, "space=" + case["data"]["space"], "bump=" + s.bump, "mode=" + case["mode"], "std" if s.std else "rips",
              "uncovered points" if not i.all() else "covered", "components=%d" % (s.comp.max() + 1))
    keep = roots.kept(case, L)
    W, gap, short, _ = ref.reduce_rows(V0, keep, case["mode"])
    if gap < 1e-5 or short < 1e-4:
        ctx.label("reduction not compared: no spectral gap")
        return
    t2 = 1e-8 + 10 * ref.sensitivity(V0, W, keep, case["mode"], eps=max(1e-12, tol / 10), rows=sub)
    if t2 < 1e-2:
        got = matrix(keep, case["mode"])
        err = ref.gram_match(got[sub], W[sub], None, t2)
        ctx.require(err is None, lambda: "reduced to %d entries in %s mode (class %d, scale %.6g): %s" % (keep, case["mode"], s.idx, s.R, err))
        ctx.label("reduction compared")
    ctx.note(points=int(N), landmarks=int(L), kept=keep, gap=gap, tolerance=tol)


def strategy_chern():
    return st.fixed_dictionaries({
        "data": data.recipe(["flag:octahedron", "flag:icosahedron", "flag:susp_cycle", "flag:susp_theta", "flag:wedge_octahedron", "sphere", "twospheres", "flag:susp_rp2"],
                            n=(8, 14), pres=("square",), frac=False, extra={"even": st.booleans()}),
        "par": coords.params(perc=st.sampled_from([0.9, 0.95, 0.5]), bump=st.sampled_from(["linear", "linear", "quadratic", "tent", "cubic"]), std=st.sampled_from([False, False, False, True])),
        "prime": st.sampled_from([41, 3, 5, 7, 2]),
        "mode": st.sampled_from(MODES),
        "reduce": st.sampled_from([0, 0, 0, 2, 3]),
    })


def check_chern(case, ctx):
    p = case["prime"]
    d0 = data.build(case["data"])
    D = np.array(d0.X, dtype=float) if d0.dm else data.pdist(d0.X)
    em = ref.EM(D, len(D), True, p, maxdim=2)
    s = coords.setting(None, em, case["par"], ctx, k=2)
    exists, plain = ref.has_integral_lift(s.c, p, s.A, 2)
    if not exists:
        ctx.discard("no integer lift (C03)")
    L = em.L
    keep = min(L, case["reduce"] or L)
    for m in (3, 6, 12):
        S = plaq.Triangles(em.DLL, s.R, 0.72, m)
        if not S.tris:
            ctx.discard("no small triangles")
        if S.n * L > 60000:
            ctx.discard("sampling too coarse")
        d = Data()
        d.X, d.dm, d.nl = S.X, True, L
        obj = coords.make("cp", d, ctx, prime=p)

        def get(k):
            V = ctx.call(obj.get_coordinates, proj_dim=k - 1, projective_dim_red_mode=case["mode"], **s.kw)
            return ctx.array(V, (S.n, k), "the coordinates")

        V = get(L)
        ctx.require(np.all(np.isfinite(V)), "a covered point has undefined coordinates")
        nn, small, big, off = plaq.chern_cochain(V, S)
        if small < 0.3 or big > 2.0:
            continue
        if keep < L:
            # the observed unreduced map tells how close to zero the reduced one gets
            W, gap, short, _ = ref.reduce_rows(V, keep, case["mode"])
            move = np.sqrt(2 - 2 * small)
            if gap < 1e-5:
                ctx.discard("no spectral gap")
            if move > short / 2:
                continue
            V = get(keep)
            ctx.require(np.all(np.isfinite(V)), "a covered point has undefined coordinates")
            nn, small, big, off = plaq.chern_cochain(V, S)
            if small < 0.3 or big > 2.0:
                continue
        break
    else:
        ctx.discard("sampling too coarse")
    ctx.require(off < 1e-6, "phases around a triangle do not close up")
    for t in ref.tetrahedra(S.A):
        v = sum((-1) ** k * nn[t[:k] + t[k + 1:]] for k in range(4))
        ctx.require(v == 0, lambda: "the Chern class of the map is %d on the boundary of the landmark tetrahedron %s" % (v, t))
    c = [s.c.get(t, 0) for t in S.tris]
    ctx.nontrivial(any(c) and not ref.is_coboundary_mod(c, S.tris, S.edges, p))
    ctx.label("p=%d" % p, "space=" + case["data"]["space"], "chern reduced" if keep < L else "chern unreduced", "plain lift" if plain else "repaired lift")
    ctx.note(chern={str(t): v for t, v in list(nn.items())[:12]}, triangles=len(S.tris))
    ok = any(ref.is_coboundary_mod([nn[t] - sg * s.c.get(t, 0) for t in S.tris], S.tris, S.edges, p) for sg in (-1, 1))
    ctx.require(ok, lambda: "the Chern class of the map is not congruent to class %d modulo %d (up to sign)" % (s.idx, p))
    if plain and p > 2:
        l = ref.lift(s.c, p)
        rows = ref.coboundary_rows(S.tris)
        ok = any(ref.integer_solvable(rows, [nn[t] - sg * l.get(t, 0) for t in S.tris]) for sg in (-1, 1))
        ctx.require(ok, lambda: "the Chern class of the map is not the integer lift of class %d (up to sign)" % s.idx)


TESTS = [
    Test("rows", strategy, check, quick=900, thorough=20000, modes=("nojit", "jit"), weight=0.6),
    Test("snapped", lambda: strategy(n=(8, 18), snap=coords.snapping()), check, quick=360, thorough=8000, modes=("nojit", "jit"), weight=0.6),
    Test("chern", strategy_chern, check_chern, quick=260, thorough=6000, modes=("jit",)),
    Test("many", lambda: strategy(n=(8, 16), wrap=data.many), check, quick=50, thorough=1000, modes=("jit",)),
    Test("larger", lambda: strategy((40, 110), ["sphere", "twospheres", "ball"]), check, quick=36, thorough=600, modes=("jit",)),
]
