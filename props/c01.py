"""C01: circular coordinates are the harmonic circle map of the chosen class."""
import numpy as np
from hypothesis import strategies as st
from lib.core import Test
from lib import data, ref, coords
from lib.strat import mix

RULE = (
    "A case is a metric data set (point cloud, square or landmarks-by-points matrix; 20 families of spaces and flag complexes), "
    "a prime, a class index, a scale, a bump function; the whole coordinate is compared with a dense reference model. "
    "Non-trivial: the integer lift is a cocycle at the scale, at least 4 covered points, and the reference map takes values that are "
    "at least 0.05 turns apart. Discarded (counted): no such class, tied bars, distances within 1e-5 of the scale, lifts that are "
    "not cocycles (those belong to C03), least-squares problems too ill-conditioned to compare at 0.02 rad."
)
ASSUMPTIONS = [
    "ripser computes the persistent cohomology of the landmarks (shared with the reference)",
    "odd primes: for p=2 the balanced lift is not unique (C02 and C03 judge that case)",
    "solver accuracy: deviations up to what a least-squares solver with relative tolerance 1e-6 may leave are accepted",
]


def strategy(n=(6, 34), spaces=coords.FLAT, snap=st.none(), frac=True, wrap=lambda r: r):
    return st.fixed_dictionaries({
        "snap": snap,
        "data": wrap(data.recipe(spaces, n=n, frac=frac)),
        "par": coords.params(),
        "prime": st.sampled_from([41, 41, 3, 5, 7, 13, 47, 127]),
        "check": st.booleans(),
        "maxdim": st.sampled_from([1, 1, 1, 2]),
        "verbose": st.booleans(),
    })


def check(case, ctx):
    d = data.build(case["data"])
    p = case["prime"]
    maxdim = case["maxdim"] if d.n <= 16 else 1
    em = ref.EM(d.X, d.nl, d.dm, p, maxdim=maxdim)
    ctx.label("pres=" + d.pres)
    par = case["par"]
    if case.get("snap"):
        d, em, par = coords.snap(d, em, case, ctx, p)
        maxdim = 1
    s = coords.setting(d, em, par, ctx)
    N = ref.cochain1(ref.lift(s.c, p), em.L)
    if not ref.is_cocycle1(N, s.A):
        ctx.discard("the balanced lift is not a cocycle")
    H = ref.Harmonic(N, em.DLL, s.R)
    tol = max(2e-5, 8 * np.pi * H.err)
    if tol > 0.02:
        ctx.discard("ill-conditioned")
    cc = coords.make("circular", d, ctx, prime=p, maxdim=maxdim, verbose=False)
    got = ctx.call(cc.get_coordinates, check_cocycle_condition=case["check"], **s.kw)
    got = ctx.array(got, (em.N,), "the coordinates", kind="real")
    # (the sum is over angles only: whole turns do not matter)
    f = ref.circle_map(H, s.w, s.first)
    i = s.cov
    ctx.require(np.all(np.isfinite(got[i])), "a covered point has an undefined coordinate")
    ctx.require(np.all((got[i] >= 0) & (got[i] <= 2 * np.pi)), "a coordinate lies outside [0, 2*pi]")
    if not i.any():
        ctx.discard("nothing is covered")
    comp = s.comp[s.first]
    dev, where = ref.compare_circle(got[i], f[i], comp[i], tol)
    spread = max(np.ptp(np.unwrap(np.sort((2 * np.pi * f[i][comp[i] == c]) % (2 * np.pi)))) for c in np.unique(comp[i]))
    ctx.nontrivial(i.sum() >= 4 and spread > 0.3)
    ctx.label("p=%d" % p, "bump=" + s.bump, "space=" + case["data"]["space"], "std" if s.std else "rips", "class>0" if s.idx else "class 0")
    if len(np.unique(comp)) > 1:
        ctx.label("several components")
    if not i.all():
        ctx.label("uncovered points")
    ctx.note(points=int(em.N), landmarks=int(em.L), edges=len(H.E), deviation=dev, tolerance=tol, R=s.R)
    ctx.require(dev <= tol, lambda: "the coordinate of point %d is off by %.4g rad from the harmonic map of class %d at scale %.6g (tolerance %.2g)"
                % (int(np.nonzero(i)[0][where]), dev, s.idx, s.R, tol))


TESTS = [
    Test("reference", lambda: strategy(), check, quick=2400, thorough=60000, modes=("jit", "nojit"), weight=0.93),
    Test("round", lambda: strategy(n=(10, 60), spaces=coords.ROUND), check, quick=1200, thorough=30000, modes=("jit", "nojit"), weight=0.93),
    Test("snapped", lambda: strategy(n=(6, 24), snap=coords.snapping()), check, quick=700, thorough=16000, modes=("jit", "nojit"), weight=0.93),
    Test("larger", lambda: strategy(n=(60, 220), spaces=["circle", "twocircles", "threecircles", "clifford", "annulus", "klein", "graph", "random"]),
         check, quick=60, thorough=1200, modes=("jit",)),
    Test("many", lambda: strategy(n=(6, 20), wrap=data.many), check, quick=60, thorough=1200, modes=("nojit", "jit")),
    # more than 256 landmarks: the numbers of the edges leave the range of 16-bit integers
    Test("huge", lambda: strategy(n=(262, 330), spaces=["circle", "twocircles", "clifford", "annulus", "klein"], frac=False),
         check, quick=16, thorough=300, modes=("jit",)),
]
